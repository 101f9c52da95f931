/* The part of the tape that belongs to the harness. */
#include "tape.h"
static void tape_new(lc3_bits_t *t) { t->any = t->nb = t->rb = t->ns = t->rs = t->left = t->bad = 0; }
static bool tape_consumed(const lc3_bits_t *t) { return t->rb == t->nb && t->rs == t->ns; }
int lc3_get_bits_left(const lc3_bits_t *b) { return b->left; }
int lc3_check_bits(const lc3_bits_t *b) { return b->bad; }
