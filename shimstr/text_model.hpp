// contract model of std::string for formatted text: a sequence of characters and formatted numbers
#pragma once
#include <cstdint>
#include <cstddef>
namespace math
{
struct string;
struct cptr { const string* s; size_t o; cptr operator+(size_t k) const { return cptr{ s, o + k }; } };
struct string
{
	uint32_t n, t[48], v[48];                 // length, kind (a character, or 256.. for a formatted number), value of the number
	string() : n(0) { }
	string(const char* s) : n(0) { while (*s) put((unsigned char)*s++, 0); }
	string(size_t k, char c) : n(0) { for (size_t i = 0; i < k; i++) put((unsigned char)c, 0); }
	string(cptr p, size_t k) : n(0) { for (size_t i = 0; i < k; i++) put(p.s->t[p.o + i], p.s->v[p.o + i]); }
	string(const string& b, size_t o, size_t k) : n(0) { for (size_t i = 0; i < k; i++) put(b.t[o + i], b.v[o + i]); }
	string(const string& b) = default;
	string& operator=(const string& b) = default;
	cptr c_str() const { return cptr{ this, 0 }; }
	cptr data() const { return cptr{ this, 0 }; }
	string substr(size_t o, size_t k) const { return string(*this, o, k); }
	void put(uint32_t k, uint32_t x) { t[n] = k; v[n] = x; n++; }
	string& operator+=(const string& b) { for (uint32_t i = 0; i < b.n; i++) put(b.t[i], b.v[i]); return *this; }
	string& operator+=(const char* b) { return *this += string(b); }
	string& operator+=(char c) { put((unsigned char)c, 0); return *this; }
	string& append(const string& b) { return *this += b; }
	void push_back(char c) { put((unsigned char)c, 0); }
	void reserve(size_t) { }
	struct ref { uint32_t* p; ref& operator=(char c) { *p = (unsigned char)c; return *this; } operator char() const { return (char)*p; } };
	ref operator[](size_t i) { return ref{ &t[i] }; }
	char operator[](size_t i) const { return (char)t[i]; }
	ref at(size_t i) { return ref{ &t[i] }; }
	size_t size() const { return n; }
	size_t length() const { return n; }
	bool empty() const { return n == 0; }
};
inline string operator+(const string& a, const string& b) { string r = a; r += b; return r; }
inline string operator+(const string& a, const char* b) { string r = a; r += string(b); return r; }
inline string operator+(const char* a, const string& b) { string r(a); r += b; return r; }
inline string operator+(const string& a, char b) { string r = a; r += b; return r; }
inline string num(uint32_t k, uint32_t x) { string r; r.put(k, x); return r; }
inline string to_string(int x) { return num(256, (uint32_t)x); }
inline string to_string(unsigned x) { return num(257, x); }
inline string to_string(float x) { uint32_t b; __builtin_memcpy(&b, &x, 4); return num(258, b); }
inline string to_string(long x) { return num(259, (uint32_t)x); }
inline string to_string(unsigned long x) { return num(260, (uint32_t)x); }
}
// parsing is left abstract: the result is a function of the text (here its first two items) and of the base
namespace std
{
inline unsigned long stoul(const math::string& s, size_t* end = nullptr, int base = 10) { return ((unsigned long)s.t[0] | (unsigned long)s.t[1] << 32) * 64 + base; }
inline unsigned long long stoull(const math::string& s, size_t* end = nullptr, int base = 10) { return ((unsigned long long)s.t[0] | (unsigned long long)s.t[1] << 32) * 64 + base; }
}
