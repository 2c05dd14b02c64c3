// api_main.cc - answers numbers on standard input, one line each
//   v < 10^12            next_prime(v)
//   1*10^12 + n          a new symbol table, names of family n       -> its size
//   2*10^12 + n          insert symbols until it holds n             -> its size, or -1
//   3*10^12              look every symbol up, and some never inserted -> number of wrong answers
#include <cstdio>
#include <string>
extern "C" {
#include "prime.h"
#include "symbol_table.h"
}
static struct SymbolTable *table;
static long held, family;
static std::string name(long i)
{
	std::string s;
	switch (family % 4) {
	case 0: return "L" + std::to_string(i);
	case 1: // equal djb2 hashes: any two of these blocks exchanged
		s = "H";
		for (int b = 0; b < 12; b++)
			s += i >> b & 1 ? "B0" : "AQ";
		return s + (i >> 12 ? std::to_string(i >> 12) : "");
	case 2: return std::string(i % 40 + 1, 'A') + std::to_string(i / 40);
	default: { // scattered
		unsigned long h = (i + 1) * 0x9E3779B97F4A7C15ul;
		s = "Z";
		for (int b = 0; b < 13; b++, h /= 26)
			s += (char)('A' + h % 26);
		return s + "_" + std::to_string(i % 7);
	}
	}
}
static int value(long i) { return (int)((i * 40503 + family) % 65537); }
int main()
{
	long v;
	const long T = 1000000000000;
	while (scanf("%ld", &v) == 1) {
		long ans;
		if (v < T) {
			ans = next_prime((int)v);
		} else if (v < 2 * T) {
			if (table)
				destroy_symbol_table(table);
			table = init_symbol_table();
			held = 0;
			family = v - T;
			ans = table ? table->size : -1;
		} else if (v < 3 * T) {
			ans = 0;
			for (; held < v - 2 * T && ans == 0; held++)
				if (insert_symbol(table, name(held).c_str(), value(held)) != SYMBOL_INSERTION_SUCCESS)
					ans = -1;
			if (ans == 0)
				ans = table->size;
		} else {
			ans = 0;
			for (long i = 0; i < held; i++)
				ans += search_symbol(table, name(i).c_str()) != value(i);
			for (long i = held; i < held + 20; i++)
				ans += search_symbol(table, name(i).c_str()) >= 0;
		}
		printf("%ld\n", ans);
		fflush(stdout);
	}
	return 0;
}
