// C33: form fields
#include "common.h"
#include <pdfmm/base/PdfAcroForm.h>
#include <pdfmm/base/PdfTextBox.h>
#include <pdfmm/base/PdfCheckBox.h>
#include <pdfmm/base/PdfRadioButton.h>
#include <pdfmm/base/PdfPushButton.h>
#include <pdfmm/base/PdfListBox.h>
#include <pdfmm/base/PdfComboBox.h>
#include <pdfmm/base/PdfSignature.h>
static unsigned pin(const char* n, unsigned top) { return __sx_pin(rng(n, 0, top)); }
static PdfFieldType typeAt(unsigned k) { static const PdfFieldType T[] = { PdfFieldType::TextBox, PdfFieldType::CheckBox, PdfFieldType::RadioButton, PdfFieldType::PushButton, PdfFieldType::ListBox, PdfFieldType::ComboBox }; return T[k]; }
static PdfAcroForm& form(PdfMemDocument& doc) { return doc.GetOrCreateAcroForm(PdfAcroFormDefaulAppearance::None); }
static PdfField& make(PdfMemDocument& doc, PdfFieldType t, bool onPage, const char* name = "n")
{
    auto& f = form(doc);
    return onPage ? doc.GetPages().GetPageAt(0).CreateField(name, t, PdfRect(1, 2, 3, 4)) : f.CreateField(name, t);
}
static bool isOf(PdfField& f, PdfFieldType t)
{
    return f.GetType() == t && (dynamic_cast<PdfTextBox*>(&f) != nullptr) == (t == PdfFieldType::TextBox) && (dynamic_cast<PdfCheckBox*>(&f) != nullptr) == (t == PdfFieldType::CheckBox)
        && (dynamic_cast<PdfRadioButton*>(&f) != nullptr) == (t == PdfFieldType::RadioButton) && (dynamic_cast<PdfPushButton*>(&f) != nullptr) == (t == PdfFieldType::PushButton)
        && (dynamic_cast<PdfListBox*>(&f) != nullptr) == (t == PdfFieldType::ListBox) && (dynamic_cast<PdfComboBox*>(&f) != nullptr) == (t == PdfFieldType::ComboBox) && (dynamic_cast<PdfSignature*>(&f) != nullptr) == (t == PdfFieldType::Signature);
}
static bool same(nullable<const PdfString&> s, int want) { return want < 0 ? !s.has_value() : s.has_value() && s->GetString() == "v" + std::to_string(want); }
static PdfString val(int k) { return PdfString("v" + std::to_string(k)); }
// ---- the flags: one table of all flags by bit and which state they stand for
struct Flag { uint64_t bit; bool inverted; std::function<void(PdfField&, bool)> set; std::function<bool(const PdfField&)> get; };
template <class T> static Flag fl(unsigned pos, bool inv, void (T::*s)(bool), bool (T::*g)() const) { return { 1ull << (pos - 1), inv, [s](PdfField& f, bool b) { (static_cast<T&>(f).*s)(b); }, [g](const PdfField& f) { return (static_cast<const T&>(f).*g)(); } }; }
static vector<Flag> flagsOf(PdfFieldType t)
{
    vector<Flag> r;
    r.push_back(fl<PdfField>(1, false, &PdfField::SetReadOnly, &PdfField::IsReadOnly));
    r.push_back(fl<PdfField>(2, false, &PdfField::SetRequired, &PdfField::IsRequired));
    r.push_back(fl<PdfField>(3, false, &PdfField::SetNoExport, &PdfField::IsNoExport));
    if (t == PdfFieldType::TextBox)
    {
        r.push_back(fl<PdfTextBox>(13, false, &PdfTextBox::SetMultiLine, &PdfTextBox::IsMultiLine));
        r.push_back(fl<PdfTextBox>(14, false, &PdfTextBox::SetPasswordField, &PdfTextBox::IsPasswordField));
        r.push_back(fl<PdfTextBox>(21, false, &PdfTextBox::SetFileField, &PdfTextBox::IsFileField));
        r.push_back(fl<PdfTextBox>(23, true, &PdfTextBox::SetSpellcheckingEnabled, &PdfTextBox::IsSpellcheckingEnabled));
        r.push_back(fl<PdfTextBox>(24, true, &PdfTextBox::SetScrollBarsEnabled, &PdfTextBox::IsScrollBarsEnabled));
        r.push_back(fl<PdfTextBox>(25, false, &PdfTextBox::SetCombs, &PdfTextBox::IsCombs));
        r.push_back(fl<PdfTextBox>(26, false, &PdfTextBox::SetRichText, &PdfTextBox::IsRichText));
    }
    if (t == PdfFieldType::ListBox || t == PdfFieldType::ComboBox)
    {
        r.push_back(fl<PdChoiceField>(20, false, &PdChoiceField::SetSorted, &PdChoiceField::IsSorted));
        r.push_back(fl<PdChoiceField>(22, false, &PdChoiceField::SetMultiSelect, &PdChoiceField::IsMultiSelect));
        r.push_back(fl<PdChoiceField>(23, true, &PdChoiceField::SetSpellcheckingEnabled, &PdChoiceField::IsSpellcheckingEnabled));
        r.push_back(fl<PdChoiceField>(27, false, &PdChoiceField::SetCommitOnSelectionChange, &PdChoiceField::IsCommitOnSelectionChange));
    }
    if (t == PdfFieldType::ComboBox) r.push_back(fl<PdfComboBox>(19, false, &PdfComboBox::SetEditable, &PdfComboBox::IsEditable));
    return r;
}
static void checkFlags(PdfField& f, uint64_t want)
{
    for (auto& x : flagsOf(f.GetType())) SX_ASSERT(x.get(f) == (((want & x.bit) != 0) != x.inverted), "a flag is read as it was set");
    auto t = f.GetType();
    if (t == PdfFieldType::ListBox || t == PdfFieldType::ComboBox) SX_ASSERT(static_cast<PdChoiceField&>(f).IsComboBox() == ((want >> 17 & 1) != 0), "combo boxes are told by their flag");
    if (auto b = dynamic_cast<PdfButton*>(&f))
    {
        bool radio = want >> 15 & 1, push = want >> 16 & 1;
        SX_ASSERT((b->IsPushButton() == push) & (b->IsRadioButton() == radio) & (b->IsCheckBox() == (!radio & !push)), "buttons are told by their flags");
    }
}
static uint64_t initialFlags(PdfFieldType t) { return t == PdfFieldType::RadioButton ? 3ull << 14 : t == PdfFieldType::PushButton ? 1ull << 16 : t == PdfFieldType::ComboBox ? 1ull << 17 : 0; }
// fields by themselves, with parents that have flags, or loaded with any flags
static void flags()
{
    auto t = typeAt(pin("type", 5)); PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    PdfField* f = &make(doc, t, pin("onpage", 1)); uint64_t want = initialFlags(t); unsigned start = pin("start", 2);
    checkFlags(*f, want);
    if (start >= 1) { want = symVal<uint32_t>("ff"); f->GetDictionary().AddKey("Ff", PdfObject((int64_t)want)); checkFlags(*f, want); }
    PdfField* parent = nullptr; uint64_t pwant = want;
    if (start == 2 && f->GetWidget() == nullptr)
    {
        parent = f; f = &f->GetChildren().CreateChild();
        // types that are told by a flag have it themselves
        if (t == PdfFieldType::PushButton) want |= 1ull << 16;
        if (t == PdfFieldType::ComboBox) want |= 1ull << 17;
        if (t == PdfFieldType::ListBox) want &= ~(1ull << 17);
        checkFlags(*f, want); checkFlags(*parent, pwant);
    }
    unsigned n = pin("ops", 1) + (deep() ? pin("more", 1) : 0); auto fs = flagsOf(t);
    for (unsigned i = 0; i < n; i++)
    {
        auto& x = fs[pin("flag", (unsigned)fs.size() - 1)]; bool on = symVal<uint8_t>("on") & 1;
        x.set(*f, on);
        want = on != x.inverted ? want | x.bit : want & ~x.bit;
        checkFlags(*f, want); if (parent) checkFlags(*parent, pwant);
        SX_ASSERT(f->GetDictionary().MustFindKey("Ff").GetNumber() == (int64_t)want, "setting a flag changes no other");
    }
    SX_ASSERT(isOf(*f, t), "a field keeps its type");
    __sx_reach("flags");
}
// the type a loaded field has
static void types()
{
    PdfMemDocument src; src.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& f = form(src); unsigned how = pin("how", 3);
    if (how <= 1)
    {
        auto t = pin("sig", 1) ? PdfFieldType::Signature : typeAt(pin("type", 5));
        if (t == PdfFieldType::Signature && how == 0) return;
        auto& a = make(src, t, how);
        SX_ASSERT(isOf(a, t) && (a.GetWidget() != nullptr) == (how == 1), "a field has the type it was created with");
        PdfMemDocument doc(src);
        SX_ASSERT(doc.GetAcroForm()->GetFieldCount() == 1 && isOf(doc.GetAcroForm()->GetFieldAt(0), t), "a field is found with its type");
        if (how == 1)
        {
            auto& w = static_cast<PdfAnnotationWidget&>(doc.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0));
            SX_ASSERT(isOf(w.GetField(), t) && w.GetField().GetWidget() == &w && w.GetField().GetName()->GetString() == "n", "the widget's field is found with its type");
        }
    }
    else
    {
        static const char* FT[] = { "Btn", "Tx", "Ch", "Sig", "Other", "" }; unsigned k = pin("ft", 5); uint32_t ff = symVal<uint32_t>("ff"); bool own = pin("own", 1), has = pin("has", 1);
        auto& o = src.GetObjects().CreateDictionaryObject(); auto* at = &o;
        if (how == 3) { auto& up = src.GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("Parent", up.GetIndirectReference()); at = &up; }
        if (k < 5) at->GetDictionary().AddKey("FT", PdfName(FT[k]));
        if (has) (own ? o : *at).GetDictionary().AddKey("Ff", PdfObject((int64_t)ff));
        f.GetDictionary().MustFindKey("Fields").GetArray().Add(o.GetIndirectReference());
        PdfMemDocument doc(src); uint32_t e = has ? ff : 0;
        auto want = k == 0 ? (e >> 16 & 1 ? PdfFieldType::PushButton : e >> 15 & 1 ? PdfFieldType::RadioButton : PdfFieldType::CheckBox) : k == 1 ? PdfFieldType::TextBox : k == 2 ? (e >> 17 & 1 ? PdfFieldType::ComboBox : PdfFieldType::ListBox) : k == 3 ? PdfFieldType::Signature : PdfFieldType::Unknown;
        SX_ASSERT(isOf(doc.GetAcroForm()->GetFieldAt(0), want), "a loaded field has the type its entries and flags, own or inherited, imply");
    }
    __sx_reach("types");
}
// ---- choice fields: a list of items
struct Item { int value, display; };
static void checkChoice(PdChoiceField& c, const vector<Item>& m, int selected, bool any)
{
    SX_ASSERT(c.GetItemCount() == m.size(), "a choice field has as many items as were inserted and not removed");
    for (unsigned i = 0; i < m.size(); i++)
    {
        SX_ASSERT(c.GetItem(i).GetString() == "v" + std::to_string(m[i].value), "an item has the value it was inserted with");
        SX_ASSERT(same(c.GetItemDisplayText(i), m[i].display < 0 ? m[i].value : m[i].display), "an item has the text it was inserted with, or its value");
    }
    if (any)
    {
        try { c.GetItem((unsigned)m.size()); SX_ASSERT(false, "there are no more items"); } catch (PdfError& e) { SX_ASSERT(e.GetError() == PdfErrorCode::ValueOutOfRange, "there are no more items"); }
        int bad = (int)symVal<uint32_t>("bad"); __sx_assume((bad < 0) | (bad >= (int)m.size()));
        try { c.GetItemDisplayText(bad); SX_ASSERT(false, "there are no more items"); } catch (PdfError& e) { SX_ASSERT(e.GetError() == PdfErrorCode::ValueOutOfRange, "there are no more items"); }
    }
    int at = -1; for (unsigned i = 0; i < m.size() && at < 0; i++) if (m[i].value == selected) at = (int)i;
    SX_ASSERT(c.GetSelectedIndex() == at, "the selected item is the one that was selected");
}
static void choice()
{
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); bool onPage = pin("onpage", 1);
    auto& c = static_cast<PdChoiceField&>(make(doc, pin("combo", 1) ? PdfFieldType::ComboBox : PdfFieldType::ListBox, onPage)); vector<Item> m; int selected = -1; bool any = false;
    unsigned n = pin("ops", deep() ? 4 : 3);
    for (unsigned i = 0; i < n; i++) switch (pin("op", 2))
    {
        case 0: { Item it { (int)pin("value", 1), pin("pair", 1) ? (int)i + 5 : -1 }; if (it.display < 0) c.InsertItem(val(it.value)); else c.InsertItem(val(it.value), val(it.display)); m.push_back(it); any = true; break; }
        case 1: { unsigned at = pin("at", (unsigned)m.size()); try { c.RemoveItem(at); SX_ASSERT(!any || at < m.size(), "only items that are there can be removed"); } catch (PdfError& e) { SX_ASSERT(at == m.size() && e.GetError() == PdfErrorCode::ValueOutOfRange, "items that are there can be removed"); break; } if (at < m.size()) m.erase(m.begin() + at); break; }
        case 2: { unsigned at = pin("at", (unsigned)m.size()); try { c.SetSelectedIndex(at); SX_ASSERT(at < m.size(), "only items that are there can be selected"); } catch (PdfError&) { SX_ASSERT(at == m.size(), "items that are there can be selected"); break; } selected = m[at].value; break; }
        default: break;
    }
    checkChoice(c, m, selected, any);
    // the widget of another field with the same name: the selection is shared, the items are each field's own
    if (onPage && pin("again", 1)) { auto& d = static_cast<PdChoiceField&>(make(doc, c.GetType(), true)); SX_ASSERT(d.GetItemCount() == 0 && d.GetName()->GetString() == "n", "a field with the same name has the name"); checkChoice(c, m, selected, any); __sx_reach("shared selection"); }
    PdfMemDocument again(doc); auto& g = again.GetAcroForm()->GetFieldAt(0);
    if (!g.GetChildren().HasKidsArray()) checkChoice(static_cast<PdChoiceField&>(g), m, selected, any);
    else checkChoice(static_cast<PdChoiceField&>(g.GetChildren().GetFieldAt(0)), m, selected, any);
    __sx_reach("choice");
}
// ---- text fields
static void text()
{
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); bool onPage = pin("onpage", 1); auto* p = &static_cast<PdfTextBox&>(make(doc, PdfFieldType::TextBox, onPage)); PdfTextBox* t = p;
    int own[2] = { -1, -1 }, inherited[2] = { -1, -1 }; bool rich = false; int64_t maxLen = -1;
    if (!onPage && pin("parent", 1))
    {
        if (pin("ptext", 1)) { p->SetText(val(7)); inherited[0] = 7; }
        if (pin("pmax", 1)) { maxLen = symVal<uint16_t>("pm"); p->SetMaxLen(maxLen); }
        t = &static_cast<PdfTextBox&>(p->GetChildren().CreateChild()); SX_ASSERT(t->GetParent() == p && isOf(*t, PdfFieldType::TextBox), "a child knows its parent");
    }
    unsigned n = pin("ops", deep() ? 4 : 3);
    for (unsigned i = 0; i < n; i++) switch (pin("op", 3))
    {
        case 0:
        {
            int k = pin("long", 1) ? 10 + (int)i : (int)i; int64_t len = k < 10 ? 2 : 3;
            try { t->SetText(val(k)); SX_ASSERT((maxLen == -1) | (len <= maxLen), "texts longer than the maximum are not accepted"); own[rich] = k; }
            catch (PdfError& e) { SX_ASSERT((maxLen != -1) & (len > maxLen) && e.GetError() == PdfErrorCode::ValueOutOfRange, "texts up to the maximum length are accepted"); }
            break;
        }
        case 1: t->SetText(nullptr); own[rich] = -1; break;
        case 2: maxLen = symVal<uint16_t>("max"); t->SetMaxLen(maxLen); break;
        case 3: rich = !rich; t->SetRichText(rich); break;
    }
    PdfMemDocument again(doc); auto& g = again.GetAcroForm()->GetFieldAt(0);
    for (int round = 0; round < 2; round++)
    {
        auto& x = round == 0 ? *t : static_cast<PdfTextBox&>(t == p ? g : g.GetChildren().GetFieldAt(0));
        int want = own[rich] >= 0 ? own[rich] : inherited[rich];
        SX_ASSERT(same(x.GetText(), want), "the text is the one that was set, or that of the parent");
        SX_ASSERT(x.GetMaxLen() == maxLen, "the maximum length is the one that was set, or that of the parent");
        SX_ASSERT(x.IsRichText() == rich, "a flag is read as it was set");
        if (!rich) { auto v = x.GetValueObject(); SX_ASSERT(own[0] < 0 ? v == nullptr : v != nullptr && v->GetString().GetString() == "v" + std::to_string(own[0]), "the value is the text"); }
    }
    if (t != p) try { p->SetText(val(1)); SX_ASSERT(false, "a field with children has no text to set"); } catch (PdfError&) { }
    if (onPage && !rich && pin("again", 1))
    {
        auto& u = static_cast<PdfTextBox&>(make(doc, PdfFieldType::TextBox, true)); SX_ASSERT(same(t->GetText(), own[0]) && same(u.GetText(), own[0]), "fields with the same name share the text");
        SX_ASSERT(form(doc).GetFieldCount() == 1 && form(doc).GetFieldAt(0).GetChildren().GetCount() == 2, "fields with the same name are widgets of one field");
        SX_ASSERT(u.GetFullName() == "n" && t->GetFullName() == "n" && form(doc).GetFieldAt(0).GetFullName() == "n", "and have its name");
        auto& w = static_cast<PdfTextBox&>(make(doc, PdfFieldType::TextBox, true)); SX_ASSERT(same(w.GetText(), own[0]) && form(doc).GetFieldCount() == 1 && form(doc).GetFieldAt(0).GetChildren().GetCount() == 3 && w.GetParent() == &form(doc).GetFieldAt(0), "fields with the same name are widgets of one field");
        bool threw = false; try { make(doc, PdfFieldType::CheckBox, true); } catch (std::exception&) { threw = true; }
        SX_ASSERT(threw, "fields of other types can't have the same name");
        __sx_reach("shared text");
    }
    __sx_reach("text");
}
// ---- names
static void names()
{
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); unsigned depth = pin("depth", 2); PdfField* f = &make(doc, typeAt(pin("type", 1) * 3), false, "v0"); vector<PdfField*> chain { f };
    for (unsigned i = 0; i < depth; i++) { f = &f->GetChildren().CreateChild(); chain.push_back(f); }
    int m[3][3]; for (auto& r : m) for (int& x : r) x = -1; m[0][0] = 0; bool dotted[3] = { };
    unsigned n = pin("ops", deep() ? 3 : 2);
    for (unsigned i = 0; i < n; i++)
    {
        unsigned at = pin("at", depth), what = pin("what", 2); int v = pin("null", 1) ? -1 : (int)i + 1; auto& g = *chain[at];
        if (what == 0 && v >= 0 && pin("dot", 1)) { bool threw = false; try { g.SetName(PdfString("a.b")); } catch (std::exception&) { threw = true; } SX_ASSERT(threw, "partial names have no periods"); continue; }
        m[at][what] = v; nullable<const PdfString&> arg; PdfString s; if (v >= 0) { s = val(v); arg = nullable<const PdfString&>(s); }
        if (what == 0) g.SetName(arg); else if (what == 1) g.SetAlternateName(arg); else g.SetMappingName(arg);
    }
    if (n < 2 && pin("foreign", 1)) { unsigned at = pin("at", depth); chain[at]->GetDictionary().AddKey("T", PdfString("x.y")); m[at][0] = -2; dotted[at] = true; }
    for (int round = 0; round < 2; round++)
    {
        PdfMemDocument again(doc); PdfField* g = &again.GetAcroForm()->GetFieldAt(0); string full, esc; bool dot = false; int near[3] = { -1, -1, -1 };
        for (unsigned i = 0; i <= depth; i++)
        {
            if (i) { auto up = g; g = &g->GetChildren().GetFieldAt(0); SX_ASSERT(g->GetParentSafe() == up && up->GetParentSafe() != g, "a loaded child knows its parent"); }
            auto& x = round == 0 ? *chain[i] : *g;
            for (int k = 0; k < 3; k++) if (m[i][k] != -1) near[k] = m[i][k];
            if (m[i][0] != -1) { string part = m[i][0] == -2 ? "x.y" : "v" + std::to_string(m[i][0]); if (!full.empty()) { full += "."; esc += "."; } full += part; esc += m[i][0] == -2 ? "x..y" : part; }
            if (m[i][0] != -2) SX_ASSERT(same(x.GetNameRaw(), m[i][0]), "the partial name is the one that was set"); else SX_ASSERT(x.GetNameRaw()->GetString() == "x.y", "the partial name is the one that was set");
            if (near[0] != -2) SX_ASSERT(same(x.GetName(), near[0]), "the name is the one that was set, or that of the parent");
            SX_ASSERT(same(x.GetAlternateName(), near[1]) && same(x.GetMappingName(), near[2]), "the other names are those that were set, or those of the parent");
            SX_ASSERT(x.GetFullName() == full && x.GetFullName(true) == esc, "the full name joins the partial names from the root");
        }
    }
    // optional values compare like what they stand for
    {
        int a = (int)pin("a", 2) - 1, b = (int)pin("b", 2) - 1; PdfString sa = val(a), sb = val(b); nullable<const PdfString&> ra, rb; nullable<PdfString> va, vb; if (a >= 0) { ra = nullable<const PdfString&>(sa); va = sa; } if (b >= 0) { rb = nullable<const PdfString&>(sb); vb = sb; }
        SX_ASSERT((va == vb) == (a == b) && (va != vb) == (a != b) && (va == rb) == (a == b) && (va != rb) == (a != b) && (ra == rb) == (a == b) && (ra != rb) == (a != b) && (ra == vb) == (a == b) && (ra != vb) == (a != b), "optional values are equal if both or none are there and they are equal");
    }
    __sx_reach("names");
}
// ---- the form's fields and a field's children: a list
struct Entry { PdfReference ref; int id; bool valid; };
static int idOf(const PdfField& f) { auto t = f.GetAlternateName(); return t.has_value() ? std::stoi(string(t->GetString())) : -1; }
template <class C> static unsigned countOf(C& c) { if constexpr (std::is_same_v<std::decay_t<C>, PdfAcroForm>) return c.GetFieldCount(); else return c.GetCount(); }
template <class C> static void checkList(C& c, PdfDictionary& dict, const char* key, const vector<Entry>& m, bool iterateFirst, PdfField* parent)
{
    auto& cc = (const C&)c; unsigned i = 0;
    if (!iterateFirst) SX_ASSERT(countOf(c) == m.size(), "there are as many fields as the history implies");
    for (auto f : c) { SX_ASSERT(i < m.size() && (f != nullptr) == m[i].valid && (f == nullptr || idOf(*f) == m[i].id), "iterating shows the fields in order"); i++; }
    SX_ASSERT(i == m.size() && countOf(c) == m.size(), "iterating shows all the fields");
    i = 0; for (auto f : cc) { SX_ASSERT((f != nullptr) == m[i].valid && (f == nullptr || idOf(*f) == m[i].id), "iterating shows the fields in order"); i++; }
    SX_ASSERT(i == m.size(), "iterating shows all the fields");
    auto arr = dict.FindKey(key); SX_ASSERT(arr == nullptr || !arr->IsArray() ? m.empty() : arr->GetArray().size() == m.size(), "the array has the fields");
    for (i = 0; i < m.size(); i++)
    {
        if (!m[i].valid) { try { c.GetFieldAt(i); SX_ASSERT(false, "an entry that is no field can't be read as one"); } catch (PdfError&) { } continue; }
        auto& f = c.GetFieldAt(i); SX_ASSERT(&f == &cc.GetFieldAt(i) && idOf(f) == m[i].id, "field i is the one the history implies");
        auto& e = arr->GetArray()[i];
        if (m[i].ref.IsIndirect()) { SX_ASSERT(&c.GetField(m[i].ref) == &f && &cc.GetField(m[i].ref) == &f, "a field is found by its reference"); SX_ASSERT(e.IsReference() && e.GetReference() == m[i].ref, "the array has its reference in this place"); }
        else SX_ASSERT(&arr->GetArray().MustFindAt(i).GetDictionary() == &f.GetDictionary(), "the array has the field in this place");
        if (parent != nullptr) SX_ASSERT(f.GetParentSafe() == parent && f.GetDictionary().MustFindKey("Parent").GetDictionary().HasKey("Kids"), "a child's parent is the field it was created from");
        else SX_ASSERT(f.GetParentSafe() == nullptr, "the form's fields have no parent");
    }
    try { c.GetFieldAt((unsigned)m.size()); SX_ASSERT(false, "there are no more fields"); } catch (PdfError& e) { SX_ASSERT(e.GetError() == PdfErrorCode::ValueOutOfRange, "there are no more fields"); }
    try { c.GetField(PdfReference(9999, 0)); SX_ASSERT(false, "only fields that are there are found"); } catch (PdfError&) { }
}
template <class C, class F> static void operate(C& c, vector<Entry>& m, unsigned top, F create)
{
    unsigned n = pin("ops", top); vector<PdfReference> gone; int next = 50;
    for (unsigned i = 0; i < n; i++) switch (pin("op", 2))
    {
        case 0: { PdfField& f = create(next); f.SetAlternateName(PdfString(std::to_string(next))); m.push_back({ f.GetObject().GetIndirectReference(), next++, true }); break; }
        case 1: { unsigned at = pin("at", (unsigned)m.size()); try { c.RemoveFieldAt(at); SX_ASSERT(at < m.size(), "only fields that are there can be removed"); } catch (PdfError& e) { SX_ASSERT(at == m.size() && e.GetError() == PdfErrorCode::ValueOutOfRange, "fields that are there can be removed"); break; } gone.push_back(m[at].ref); m.erase(m.begin() + at); break; }
        case 2: { unsigned at = pin("at", (unsigned)m.size()); if (at == m.size()) { c.RemoveField(gone.empty() ? PdfReference(9999, 0) : gone.back()); break; } if (!m[at].ref.IsIndirect()) break; c.RemoveField(m[at].ref); gone.push_back(m[at].ref); m.erase(m.begin() + at); break; }
        default: break;
    }
}
static void formHistory()
{
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& f = form(doc); vector<Entry> m; if (pin("nofields", 1)) f.GetDictionary().RemoveKey("Fields");
    operate(f, m, deep() ? 6 : 5, [&](int id) -> PdfField& { return f.CreateField("f" + std::to_string(id), typeAt(id % 6)); });
    checkList(f, f.GetDictionary(), "Fields", m, false, nullptr);
    PdfMemDocument again(doc); checkList(*again.GetAcroForm(), again.GetAcroForm()->GetDictionary(), "Fields", m, pin("iterate", 1), nullptr);
    __sx_reach("form history");
}
static void childHistory()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& f = form(doc); unsigned depth = pin("depth", 2); f.CreateField("other", PdfFieldType::TextBox); auto t = typeAt(pin("type", 1) * 4);
    PdfField* p = &f.CreateField("top", t); for (unsigned i = 0; i < depth; i++) p = &p->GetChildren().CreateChild();
    vector<Entry> m; unsigned onPage = pin("onpage", 1), made = 0;
    operate(p->GetChildren(), m, deep() ? 5 : 4, [&](int id) -> PdfField& { made++; if (!onPage) return p->GetChildren().CreateChild(); auto& c = p->GetChildren().CreateChild(page, PdfRect(1, 2, 3, 4)); SX_ASSERT(c.GetWidget() != nullptr, "a child created on a page has a widget"); return c; });
    SX_ASSERT(page.GetAnnotations().GetCount() == (onPage ? made : 0), "children created on a page are shown there");
    checkList(p->GetChildren(), p->GetDictionary(), "Kids", m, false, p);
    for (unsigned i = 0; i < m.size(); i++) SX_ASSERT(isOf(p->GetChildren().GetFieldAt(i), t), "a child has the type of its parent");
    PdfMemDocument again(doc); SX_ASSERT(again.GetAcroForm()->GetFieldCount() == 2, "children are no fields of the form"); PdfField* q = &again.GetAcroForm()->GetFieldAt(1);
    for (unsigned i = 0; i < depth; i++) { auto up = q; q = &q->GetChildren().GetFieldAt(0); SX_ASSERT(q->GetParentSafe() == up, "a loaded child knows its parent"); }
    checkList(q->GetChildren(), q->GetDictionary(), "Kids", m, pin("iterate", 1), q);
    for (unsigned i = 0; i < m.size(); i++) SX_ASSERT(isOf(q->GetChildren().GetFieldAt(i), t), "a loaded child has the type of its parent");
    __sx_reach("child history");
}
static void loaded(unsigned top, unsigned ops, bool kids)
{
    PdfMemDocument src; src.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& f = form(src); vector<Entry> m; unsigned n = pin("n", top); PdfArray arr;
    PdfObject* parent = kids ? &f.CreateField("p", PdfFieldType::TextBox).GetObject() : nullptr;
    for (unsigned i = 0; i < n; i++)
    {
        PdfDictionary d; d.AddKey("TU", PdfString(std::to_string(i))); unsigned kind = pin("kind", 5);
        if (kind == 0) d.AddKey("FT", PdfName("Btn")); else if (kind == 1) { d.AddKey("FT", PdfObject((int64_t)3)); d.AddKey("Ff", PdfName("x")); }
        if (parent) d.AddKey("Parent", parent->GetIndirectReference());
        if (kind <= 2 && pin("direct", 1) == 0) { auto& o = src.GetObjects().CreateObject(d); arr.Add(o.GetIndirectReference()); m.push_back({ o.GetIndirectReference(), (int)i, true }); }
        else if (kind <= 2) { arr.Add(d); m.push_back({ PdfReference(), (int)i, true }); }
        else { if (kind == 3) arr.Add(PdfReference(4000 + i, 0)); else if (kind == 4) arr.Add((int64_t)5); else arr.Add(PdfObject::Null); m.push_back({ PdfReference(), 0, false }); }
    }
    auto& where = kids ? parent->GetDictionary() : f.GetDictionary(); const char* key = kids ? "Kids" : "Fields";
    if (n) { if (pin("shared", 1)) where.AddKeyIndirect(key, src.GetObjects().CreateObject(arr)); else where.AddKey(key, arr); }
    else if (pin("odd", 1)) where.AddKey(key, PdfName("x"));
    PdfMemDocument doc(src); auto& g = *doc.GetAcroForm(); bool first = ops == 0 && pin("iterate", 1);
    if (kids)
    {
        auto& p = g.GetFieldAt(0);
        if (!m.empty() || !where.HasKey(key)) { operate(p.GetChildren(), m, ops, [&](int) -> PdfField& { auto& c = p.GetChildren().GetCount() > 99 ? p : static_cast<PdfField&>(*p.GetPtr()); std::shared_ptr<PdfField> s = PdfField::createField(g, PdfFieldType::TextBox, c.GetPtr()); return p.GetChildren().AddChild(s); }); checkList(p.GetChildren(), p.GetDictionary(), key, m, first, &p); }
        else SX_ASSERT(p.GetChildren().GetCount() == 0, "an entry that is no array has no fields");
    }
    else if (!m.empty() || where.HasKey(key)) { operate(g, m, ops, [&](int id) -> PdfField& { return g.CreateField("f" + std::to_string(id), typeAt(id % 6)); }); checkList(g, g.GetDictionary(), key, m, first, nullptr); }
    __sx_reach("loaded");
}
// ---- buttons, and what fields of all types have
static void buttons()
{
    PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); unsigned kind = pin("type", 2); auto t = typeAt(1 + kind); bool onPage = pin("onpage", 1); auto& b = static_cast<PdfButton&>(make(doc, t, onPage)); auto push = dynamic_cast<PdfPushButton*>(&b); auto box = dynamic_cast<PdfCheckBox*>(&b);
    int cap[3] = { -1, -1, -1 }, checked = -1; unsigned n = pin("ops", deep() ? 4 : 3);
    auto get = [](PdfButton& x, int k) { return k == 0 ? x.GetCaption() : k == 1 ? static_cast<PdfPushButton&>(x).GetRolloverCaption() : static_cast<PdfPushButton&>(x).GetAlternateCaption(); };
    for (unsigned i = 0; i < n; i++)
    {
        if (box && pin("check", 1)) { checked = (int)pin("on", 1); box->SetChecked(checked); continue; }
        int k = (int)pin("caption", push ? 2 : 0), v = pin("null", 1) ? -1 : (int)i; nullable<const PdfString&> arg; PdfString s; if (v >= 0) { s = val(v); arg = nullable<const PdfString&>(s); }
        try { if (k == 0) b.SetCaption(arg); else if (k == 1) push->SetRolloverCaption(arg); else push->SetAlternateCaption(arg); SX_ASSERT(onPage, "a button that isn't shown has no caption"); cap[k] = v; } catch (PdfError&) { SX_ASSERT(!onPage, "captions can be set on buttons that are shown"); }
    }
    PdfMemDocument again(doc);
    for (int round = 0; round < 2; round++)
    {
        if (round && !onPage) break;
        auto& x = round == 0 ? b : static_cast<PdfButton&>(static_cast<PdfAnnotationWidget&>(again.GetPages().GetPageAt(0).GetAnnotations().GetAnnotAt(0)).GetField());
        if (onPage) for (int k = 0; k <= (push ? 2 : 0); k++) SX_ASSERT(same(get(x, k), cap[k]), "a caption is the one that was set");
        if (box) SX_ASSERT(static_cast<PdfCheckBox&>(x).IsChecked() == (checked == 1), "a check box has the state that was set");
    }
    if (!onPage) try { b.GetCaption(); SX_ASSERT(false, "a button that isn't shown has no caption"); } catch (PdfError&) { }
    (void)page; __sx_reach("buttons");
}
static void common()
{
    PdfMemDocument doc; doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto& f = make(doc, typeAt(pin("type", 5)), pin("onpage", 1));
    SX_ASSERT(f.GetHighlightingMode() == PdfHighlightingMode::Invert, "fields are highlighted by inverting them");
    unsigned k = pin("mode", 5); static const PdfHighlightingMode M[] = { PdfHighlightingMode::None, PdfHighlightingMode::Invert, PdfHighlightingMode::InvertOutline, PdfHighlightingMode::Push };
    if (k < 4) { f.SetHighlightingMode(M[k]); SX_ASSERT(f.GetHighlightingMode() == M[k] && f.GetDictionary().MustFindKey("H").GetName().GetString() == string(1, "NIOP"[k]), "the highlighting mode is the one that was set"); }
    else if (k == 4) try { f.SetHighlightingMode(PdfHighlightingMode::Unknown); SX_ASSERT(false, "fields have a known highlighting mode"); } catch (PdfError&) { }
    static const struct { const char* key; void (PdfField::*set)(const PdfAction&); } A[] = { { "E", &PdfField::SetMouseEnterAction }, { "X", &PdfField::SetMouseLeaveAction }, { "D", &PdfField::SetMouseDownAction }, { "U", &PdfField::SetMouseUpAction }, { "Fo", &PdfField::SetFocusEnterAction }, { "Bl", &PdfField::SetFocusLeaveAction }, { "PO", &PdfField::SetPageOpenAction }, { "PC", &PdfField::SetPageCloseAction }, { "PV", &PdfField::SetPageVisibleAction }, { "PI", &PdfField::SetPageInvisibleAction }, { "K", &PdfField::SetKeystrokeAction }, { "V", &PdfField::SetValidateAction } };
    std::map<string, PdfReference> want; unsigned n = pin("ops", 2);
    for (unsigned i = 0; i < n; i++) { PdfAction a(doc, PdfActionType::URI); auto& x = A[pin("action", 11)]; (f.*x.set)(a); want[x.key] = a.GetObject().GetIndirectReference(); }
    auto aa = f.GetDictionary().FindKey("AA"); SX_ASSERT((aa != nullptr) == (n != 0), "actions are entries of /AA");
    if (aa) { SX_ASSERT(aa->GetDictionary().GetSize() == want.size(), "there are no other actions"); for (auto& p : want) SX_ASSERT(aa->GetDictionary().MustGetKey(p.first).GetReference() == p.second, "an action has the key of its event"); }
    auto& a = form(doc); bool na = symVal<uint8_t>("need") & 1; SX_ASSERT(!a.GetNeedAppearances(), "appearances need not be created unless stated"); a.SetNeedAppearances(na); SX_ASSERT(a.GetNeedAppearances() == na, "it is kept whether appearances need to be created"); SX_ASSERT(&form(doc) == &a, "there is one form");
    __sx_reach("common");
}
void sx_harness()
{
    PdfCommon::SetMaxLoggingSeverity(PdfLogSeverity::None);
    switch (__sx_range("case", 0, 11))
    {
        case 0: flags(); break;
        case 1: types(); break;
        case 2: choice(); break;
        case 3: text(); break;
        case 4: names(); break;
        case 5: formHistory(); break;
        case 6: childHistory(); break;
        case 7: loaded(2, deep() ? 3 : 2, false); break;
        case 8: loaded(2, deep() ? 3 : 2, true); break;
        case 9: loaded(3, 0, pin("kids", 1)); break;
        case 10: buttons(); break;
        default: common(); break;
    }
}
