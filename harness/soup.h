// soup.h - arbitrary and nearly valid source text
#ifndef SOUP_H
#define SOUP_H
#include "gen.h"
Str soup(Ctx &x);                          // anything at all
Str mutate_text(Choices &c, Str s, int n); // byte-, token- and line-level mutations
#endif
