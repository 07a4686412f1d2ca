// C38 printing and reading lines (with exceptions: conversion errors are caught)
// FLAGS: -UTHEORETICA_NO_PRINT -fexceptions
#include "sym.h"
#include "../harness/text.h"
#include "theoretica.h"
#include "utility.h"
using namespace theoretica;
namespace th = theoretica;
static std::string printed() { std::string s(std::cout.o, std::cout.o + std::cout.n); std::cout.n = 0; return s; }
HARNESS(io_print, "t=60", "print, println, fprint and fprintln write their arguments in order, one space between them, and the newline") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c");
	std::stringstream o;
	print(a); reader(printed(), "print 1").val(a).end();
	print(a, "x", b); reader(printed(), "print 3").val(a).lit(" x ").val(b).end();
	println(); reader(printed(), "println").lit("\n").end();
	println(c); reader(printed(), "println 1").val(c).lit("\n").end();
	println(a, b, c); reader(printed(), "println 3").val(a).lit(" ").val(b).lit(" ").val(c).lit("\n").end();
	fprint(o, a, b); reader(o.str(), "fprint").val(a).lit(" ").val(b).end();
	o.n = 0;
	fprint(o, a); reader(o.str(), "fprint 1").val(a).end();
	o.n = 0;
	fprintln(o, a, b, "y"); reader(o.str(), "fprintln").val(a).lit(" ").val(b).lit(" y\n").end();
	o.n = 0;
	fprintln(o, c); reader(o.str(), "fprintln 1").val(c).lit("\n").end();
	sym_check(std::cout.n == 0, "nothing else is printed");
}
// the i-th line of the input: 0 empty, 1 a number, 2 not a number, 3 the terminator
static const char* lines[4] = {"", "1,5", "abc", "end"};
HARNESS(io_readln, "t=120 max_paths=100000", "reading up to 4 lines, each empty, a number, malformed or the terminator: the numbers before the terminator (or the end of the input) in order, nothing else") {
	unsigned n = sym_choose("lines", 0, 4);
	int term = sym_choose("terminator", 0, 1);
	std::istream in;
	in.at = 0; in.bad = false;
	int k[4];
	for (unsigned i = 0; i < n; ++i) { k[i] = sym_choose(nm("line", i), 0, 3); in.lines.push_back(lines[k[i]]); }
	real y = sym_real("y");
	unsigned expected = 0;
	for (unsigned i = 0; i < n; ++i) {
		if (k[i] == (term ? 3 : 0)) break;
		if (k[i] == 1) expected++;
	}
	std::cout.n = 0;
	if (sym_choose("parser", 0, 1)) {
		vec<real> v = readln<real>(in, term ? "end" : "", [&](std::string s) { if (s == "1,5") return y; throw 1; return 0.0; });
		sym_check(v.size() == expected, "size");
		for (unsigned i = 0; i < v.size(); ++i) sym_eq(v[i], y, "value");
	} else {
		vec<real> v = readln(in, term ? "end" : "");
		sym_check(v.size() == expected, "size");
		for (unsigned i = 0; i < v.size(); ++i) sym_eq(v[i], 1.5, "decimal comma");
	}
}
HARNESS(io_spellings, "t=60", "lines of one character, with leading comma, sign, exponent, blanks or both separators are read as numbers; prefixes and extensions of the terminator are not the terminator") {
	static const char* L[] = {"7", "0", ",5", "-2", "-,25", "3.25", "1e2", " 4", "12,5", "+6", "1000000"}; static const double V[] = {7, 0, 0.5, -2, -0.25, 3.25, 100, 4, 12.5, 6, 1000000}; int a = (int) sym_choose("a", 0, 10), b = (int) sym_choose("b", 0, 10);
	std::istream in; in.at = 0; in.bad = false; in.lines.push_back(L[a]); in.lines.push_back("en"); in.lines.push_back(L[b]); in.lines.push_back("ended"); in.lines.push_back("8"); in.lines.push_back("end"); in.lines.push_back("9"); std::cout.n = 0; vec<real> v = readln(in, "end"); sym_check(v.size() == 3, "size"); sym_eq(v[0], V[a], "first"); sym_eq(v[1], V[b], "second"); sym_eq(v[2], 8, "third"); sym_check(in.at == 6, "nothing is read after the terminator");
}
