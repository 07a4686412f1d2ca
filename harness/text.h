// A stand-in for the standard streams: characters are kept as they are, and a number
// becomes '\x01' followed by its index in a table, so that the text is compared exactly
// while the values stay symbolic. How a number is spelled is the standard library's business.
#ifndef TEXT_H
#define TEXT_H
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_SSTREAM 1
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_IOMANIP 1
#include <cstdint>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0   // so that the string functions have bodies to execute
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
namespace text {
	static double numbers[256];   // values by index, shared by all streams
	static int count = 0;
	inline void reset() { count = 0; }
}
namespace std {
	template<class C, class T> class basic_ostream {
	public:
		C o[400]; int n;   // zero when static
		void push(C c) { o[n++] = c; }
		basic_ostream& operator<<(const char* s) { for (; *s; ++s) push(*s); return *this; }
		basic_ostream& operator<<(char c) { push(c); return *this; }
		basic_ostream& operator<<(const basic_string<C>& s) { for (size_t i = 0; i < s.size(); ++i) push(s[i]); return *this; }
		basic_ostream& operator<<(double x) { text::numbers[text::count] = x; push('\x01'); push((char) (2 + text::count++)); return *this; }
		basic_ostream& operator<<(float x) { return *this << (double) x; }
		basic_ostream& operator<<(long double x) { return *this << (double) x; }
		basic_ostream& operator<<(int x) { return *this << (double) x; }
		basic_ostream& operator<<(unsigned x) { return *this << (double) x; }
		basic_ostream& operator<<(long x) { return *this << (double) x; }
		basic_ostream& operator<<(unsigned long x) { return *this << (double) x; }
		basic_ostream& operator<<(bool x) { return *this << (double) x; }
		basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
		basic_ostream& put(char c) { return *this << c; }
	};
	template<class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o << '\n'; }
	template<class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
	inline namespace __cxx11 {
	template<class C, class T, class A> class basic_stringstream : public basic_ostream<C, T> {
	public:
		basic_stringstream() { this->n = 0; }
		basic_string<C> str() const { return basic_string<C>(this->o, this->o + this->n); }
	};
	template<class C, class T, class A> class basic_ostringstream : public basic_stringstream<C, T, A> {};
	}
	// input: the lines are given; past the last one reading fails and leaves an empty line
	template<class C, class T> class basic_istream {
	public:
		vector<basic_string<C>> lines;
		size_t at; bool bad;   // zero when static
		explicit operator bool() const { return !bad; }
		bool operator!() const { return bad; }
		bool fail() const { return bad; }
		bool eof() const { return bad; }
		bool good() const { return !bad; }
	};
	inline basic_istream<char>& getline(basic_istream<char>& in, string& l) {
		l = string();
		if (in.at >= in.lines.size()) in.bad = true;
		else l = in.lines[in.at++];
		return in;
	}
	static basic_ostream<char> cout, cerr;
	static basic_istream<char> cin;
}
// reads a text from the start: literal characters and numbers, in order
struct reader {
	std::string s; size_t i; const char* id;
	reader(const std::string& t, const char* id) : s(t), i(0), id(id) {}
	reader& lit(const char* t) {
		for (; *t; ++t, ++i)
			if (i >= s.size() || s[i] != *t) { sym_check(false, id); i = s.size(); return *this; }
		return *this;
	}
	reader& val(double x) {
		if (i + 1 >= s.size() || s[i] != '\x01') { sym_check(false, id); i = s.size(); return *this; }
		sym_eq(text::numbers[(unsigned char) s[i + 1] - 2], x, id);
		i += 2;
		return *this;
	}
	bool number() const { return i < s.size() && s[i] == '\x01'; }
	void end() { sym_check(i == s.size(), id); text::reset(); }
};
#endif
