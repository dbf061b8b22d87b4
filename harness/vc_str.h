#pragma once
#include "vc_vec.h"
#include "spvgentwo/String.h"
// an arbitrary well formed string: no elements, or characters followed by the terminator
struct OldStr {
	uint64_t n, cap, m; void* arr; char* data;     // n characters, m elements
	OldStr(String& s, const char* name) {
		cap = vc_len("cap"); m = vc_len(name);
		vc_assume(m <= cap);
		arr = vc_array("chars", cap, 1);
		data = cap > 0 ? (char*)arr : nullptr;
		s.m_pData = data; s.m_elements = m; s.m_capacity = cap;
		if (m > 0) data[m - 1] = '\0';
		n = m > 0 ? m - 1 : 0;
	}
	char at(uint64_t i) const { return (char)vc_inita8(arr, i, 0); }
};
template<class W> void check_str(const String& s, uint64_t n, W at)
{
	vc_assert(s.size() == n, "length");
	vc_assert(s.m_elements == n + 1 || (n == 0 && s.m_elements == 0), "one terminator behind the characters");
	vc_assert(s.m_elements <= s.capacity(), "size never exceeds capacity");
	vc_assert((s.data() == nullptr) == (s.capacity() == 0), "storage present iff capacity > 0");
	if (s.capacity() > 0) {
		vc_assert(vc_live(s.data()), "storage is live");
		vc_assert(vc_size(s.data()) >= s.capacity(), "storage holds the capacity");
	}
	if (s.m_elements > 0) vc_assert(s.c_str()[n] == '\0', "terminated");
	vc_assert(s.end() == s.begin() + n, "iterator range is the character range");
	VC_FORALL(i, n) { vc_assert(s[i] == at(i), "character"); }
}
// a C string of n characters
struct CStr {
	uint64_t n; const char* p;
	CStr(const char* len, const char* name) { n = vc_len(len); p = vc_cstr(name, n); }
	char at(uint64_t i) const { return (char)vc_inita8(p, i, 0); }
};
