#pragma once
#include "node.h"
typedef Node* SX;
struct MaskMemo { u64 hash, chk; u64 mask[4]; };
const u32 MASKMEMO = 1u << 18;
extern Slot* G;
extern int g_tier;
void sx_set_maskmemo(MaskMemo*);
bool sx_mask_of(Node* n, u64 m[4]);
u64* sx_tab_of(Node* n);
Node* sx_not(Node*); Node* sx_bin_node(u8 op, Node* a, Node* b); Node* sx_const(u64 v, unsigned w);
int sx_arity(u8 op);
void sx_run_path(Slot* s, int seconds);
void sx_attach(Slot* s);
void sx_globals_ready(); void sx_scan_maps();
void sx_stop(u32 st, const char* tag, const char* where);
bool sx_in_arena(const void* p); void sx_arena_free(void* p); u64 sx_arena_size(void* p);
