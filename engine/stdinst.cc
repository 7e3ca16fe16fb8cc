// Instrumented instantiations of the library templates that libstdc++.so would otherwise provide.
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
template class std::basic_string<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_istream<char>;
template class std::basic_ostream<char>;
template class std::basic_iostream<char>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_stringstream<char>;
