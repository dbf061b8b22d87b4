// Contracts of the word streams: BinaryVectorWriter, BinaryFileWriter, BinaryFileReader.
#include <vector>
#include <stdio.h>
#include "vc_vec.h"
#include "common/BinaryVectorWriter.h"
#include "common/BinaryFileWriter.h"
#include "common/BinaryFileReader.h"
// ---- vector writer
VC_HARNESS(vecwriter_put)
{
	VcFailAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n"); unsigned w = vc_u32("w");
	BinaryVectorWriter<V> wr(v);
	bool r = static_cast<IWriter&>(wr).put(w);
	vc_assert(r == (A.failed == 0), "put fails exactly when the storage cannot grow");
	check_vec(v, r ? o.n + 1 : o.n, [&](uint64_t i) { return i < o.n ? o.val(i) : w; });
	vc_cover("end");
}
#ifndef VC_SYMBOLIC
VC_BOUNDED(vecwriter_std)
{
	std::vector<unsigned> v, x; BinaryVectorWriter<std::vector<unsigned>> wr(v);
	uint64_t n = vc_len("n"); for (uint64_t i = 0; i < n; ++i) { x.push_back(vc_u32("w")); vc_assert(wr.put(x.back()), "put succeeds"); }
	vc_assert(v == x, "words in order"); vc_cover("end");
}
#endif
// ---- the C library's files.  Symbolically: a file of any size whose words, seen from byte position `base`, are arbitrary;
// every call may fail.  Natively: a memory file (or a full device).
#ifdef VC_SYMBOLIC
struct File {
	uint64_t size, base, pos = 0, written = 0; void* words; const unsigned* out = nullptr;   // out: the words handed to fwrite
	unsigned opens = 0, closes = 0, failed = 0; char mode = 0; static File* cur;
	const char* path;
	File(uint64_t bytes, uint64_t b) : size(bytes), base(b) { words = vc_array("file", b <= bytes ? (bytes - b) / 4 : 0, 4); path = (const char*)vc_opaque("path"); cur = this; }
	unsigned word(uint64_t i) const { return vc_inita32(words, i, 0); }
	bool open() const { return opens == closes + 1; }
	bool fails() { bool f = vc_bool("iofail"); if (f) ++failed; return f; }
};
File* File::cur;
extern "C" {
FILE* ct_fopen(const char* p, const char* m)
{
	File& f = *File::cur; vc_assert(p == f.path, "the named file"); vc_assert(m[1] == 'b' && m[2] == 0, "binary");
	if (f.fails()) return nullptr;
	f.mode = m[0]; f.pos = 0; ++f.opens; return (FILE*)&f;
}
int ct_fclose(FILE* p) { File& f = *File::cur; vc_assert((File*)p == &f && f.open(), "only an open file is closed"); ++f.closes; return f.fails() ? -1 : 0; }
int ct_fseek(FILE* p, long o, int wh)
{
	File& f = *File::cur; vc_assert((File*)p == &f && f.open(), "only an open file is used");
	long t = (wh == SEEK_END ? (long)f.size : wh == SEEK_CUR ? (long)f.pos : 0l) + o;
	if (t < 0 || f.fails()) return -1;
	f.pos = (uint64_t)t; return 0;
}
long ct_ftell(FILE* p) { File& f = *File::cur; vc_assert((File*)p == &f && f.open(), "only an open file is used"); return f.fails() ? -1l : (long)f.pos; }
size_t ct_fread(void* buf, size_t s, size_t n, FILE* p)
{
	File& f = *File::cur; vc_assert((File*)p == &f && f.open() && f.mode == 'r', "only a file open for reading is read");
	vc_assert(s == 4, "words"); vc_assert(n == 0 || f.pos == f.base, "reading starts at the offset");
	if (f.fails() || f.pos > f.size) return 0;
	uint64_t k = (f.size - f.pos) / 4; if (n < k) k = n;
	if (k > 0) { __builtin_memcpy(buf, f.words, k * 4); f.pos += k * 4; }
	return k;
}
size_t ct_fwrite(const void* buf, size_t s, size_t n, FILE* p)
{
	File& f = *File::cur; vc_assert((File*)p == &f && f.open() && f.mode == 'w', "only a file open for writing is written");
	vc_assert(s == 4 && n > 0, "words"); vc_assert(vc_size(buf) >= n * 4, "only existing words are written");
	if (f.fails()) return 0;
	vc_assert(f.written == 0, "the words are written once");
	f.out = (const unsigned*)buf; f.written = n; return n;
}
}
#else
#include <sys/mman.h>
#include <unistd.h>
#include <string.h>
struct File {
	int fd; char path[64]; uint64_t size, base; std::vector<unsigned char> bytes; unsigned failed = 0;
	File(uint64_t n, uint64_t b) : size(n), base(b)
	{
		fd = memfd_create("vc", 0); snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
		for (uint64_t i = 0; i < n; ++i) bytes.push_back(i % 4 == 1 ? (unsigned char)vc_u8("byte") : (unsigned char)(i * 37 + 1));
		(void)!::write(fd, bytes.data(), n);
	}
	~File() { ::close(fd); }
	unsigned word(uint64_t i) const { unsigned w; memcpy(&w, &bytes[base + 4 * i], 4); return w; }
	std::vector<unsigned> content() const { std::vector<unsigned> v((uint64_t)lseek(fd, 0, SEEK_END) / 4); lseek(fd, 0, SEEK_SET); (void)!::read(fd, v.data(), v.size() * 4); return v; }
};
#endif
// ---- file reader
struct AnyReader { VcAllocator A; VcBox<BinaryFileReader> box; BinaryFileReader& R; OldVec o; uint64_t pos;
	AnyReader() : box(A), R(box.x), o(R.m_buffer, "n") { pos = vc_u64("pos"); vc_assume(pos <= o.n); R.m_pos = pos; } };
VC_HARNESS(reader_get)
{
	AnyReader a; unsigned w = vc_u32("w"), w0 = w; BinaryFileReader& R = a.R;
	bool r = static_cast<IReader&>(R).get(w);
	vc_assert(r == (a.pos < a.o.n), "the end is reported exactly at the end");
	vc_assert(w == (r ? a.o.val(a.pos) : w0), "the next word");
	vc_assert(R.m_pos == a.pos + (r ? 1 : 0), "one word is consumed");
	check_vec(R.m_buffer, a.o.n, [&](uint64_t i) { return a.o.val(i); });
	vc_assert((bool)R == (a.o.n > 0), "a reader holds words");
	vc_cover("end");
}
static void read_check(BinaryFileReader& R, bool r, const File& f, uint64_t off, uint64_t len)
{
	uint64_t l = len == 0 ? f.size - off : len;
	bool fits = off <= f.size && l <= f.size - off && l % 4 == 0;
	vc_assert(!r || fits, "a range that is not in the file is rejected");
	vc_assert(r || !fits || f.failed > 0, "a range in the file is read unless the file fails");
	vc_assert(R.m_pos == 0, "reading starts with the first word");
	check_vec(R.m_buffer, r ? l / 4 : 0, [&](uint64_t i) { return f.word(i); });
#ifdef VC_SYMBOLIC
	vc_assert(f.opens == f.closes, "the file is closed");
#endif
}
#ifdef VC_SYMBOLIC
#define ANYFILE(off) File f(vc_len("bytes"), off)
#else
#define ANYFILE(off) File f(4 * vc_len("words") + (vc_below("odd", 4) == 3 ? vc_below("tail", 4) : 0), off)
#endif
static uint64_t anyOffset() {
#ifdef VC_SYMBOLIC
	return vc_u64("off");
#else
	uint64_t s = vc_below("offsel", 4); return s == 0 ? 0 : s == 1 ? vc_u64("off") : s == 2 ? 4 * vc_below("off4", 4) : vc_below("off1", 16);
#endif
}
static uint64_t anyLength() {
#ifdef VC_SYMBOLIC
	return vc_u64("len");
#else
	uint64_t s = vc_below("lensel", 4); return s == 0 ? 0 : s == 1 ? vc_u64("len") : s == 2 ? 4 * vc_below("len4", 6) : vc_below("len1", 20);
#endif
}
VC_HARNESS(reader_read)
{
	AnyReader a; uint64_t off = anyOffset(), len = anyLength(); ANYFILE(off);
	bool r = a.R.read(f.path, off, len);
	read_check(a.R, r, f, off, len);
	vc_cover("end");
}
VC_HARNESS(reader_construct)
{
	VcAllocator A; uint64_t off = anyOffset(), len = anyLength(); ANYFILE(off);
	VcBox<BinaryFileReader> box(A, f.path, off, len); BinaryFileReader& R = box.x;
	read_check(R, !R.m_buffer.empty() || (f.failed == 0 && off == f.size && len == 0), f, off, len);
	vc_cover("end");
}
VC_HARNESS(reader_no_path)
{
	AnyReader a; vc_assert(!a.R.read(nullptr, vc_u64("off"), vc_u64("len")), "no file, no words");
	vc_assert(!a.R, "no words"); unsigned w = 0; vc_assert(!a.R.get(w), "no words"); vc_cover("end");
}
// ---- file writer
VC_HARNESS(writer_put)
{
	VcFailAllocator A; VcBox<BinaryFileWriter> box(A, nullptr, 0); BinaryFileWriter& W = box.x; OldVec o(W.m_buffer, "n"); unsigned w = vc_u32("w");
	bool r = static_cast<IWriter&>(W).put(w);
	vc_assert(r == (A.failed == 0), "put fails exactly when the storage cannot grow");
	check_vec(W.m_buffer, r ? o.n + 1 : o.n, [&](uint64_t i) { return i < o.n ? o.val(i) : w; });
	vc_cover("end");
}
VC_HARNESS(writer_construct)
{
	VcAllocator A; uint64_t s = vc_len("s"); ANYFILE(0);
	VcBox<BinaryFileWriter> box(A, f.path, s); BinaryFileWriter& W = box.x;
	vc_assert(W.isOpen() == (f.failed == 0) && (bool)W == W.isOpen(), "open exactly when the file could be opened");
	check_vec(W.m_buffer, 0, [](uint64_t) { return 0u; });
	vc_assert(!W.isOpen() || !W.open(f.path), "an open writer is not opened again");
	vc_assert(!W.open(nullptr), "no file is not opened");
#ifdef VC_SYMBOLIC
	vc_assert(!W.isOpen() || (f.opens == 1 && f.mode == 'w' && W.m_pFile == &f), "opened for writing");
#else
	W.close();
#endif
	vc_cover("end");
}
VC_HARNESS(writer_close)
{
	VcAllocator A; ANYFILE(0); VcBox<BinaryFileWriter> box(A, nullptr, 0); BinaryFileWriter& W = box.x; bool op = vc_bool("open");
	if (op) op = W.open(f.path);
	OldVec o(W.m_buffer, "n");
	vc_assert(W.isOpen() == op, "open exactly when the file could be opened");
#ifdef VC_SYMBOLIC
	unsigned before = f.failed;
#endif
	bool r = W.close();
	vc_assert(!W.isOpen(), "closed");
	vc_assert(W.m_buffer.empty(), "nothing remains to be written");
#ifdef VC_SYMBOLIC
	vc_assert(r == (op && f.failed == before), "success is reported exactly when all words reached the file");
	vc_assert(f.opens == f.closes, "the file is closed once");
	if (r) { vc_assert(f.written == o.n, "all words are written"); if (o.n > 0) vc_assert(f.out == o.data, "the buffered words are written"); }
#else
	vc_assert(r == op, "success is reported exactly when all words reached the file");
	if (op) { std::vector<unsigned> c = f.content(); vc_assert(c.size() == o.n, "all words are written"); for (uint64_t i = 0; i < o.n && i < c.size(); ++i) vc_assert(c[i] == o.val(i), "words in order"); }
#endif
	vc_cover("end");
}
#ifndef VC_SYMBOLIC
VC_BOUNDED(writer_reader_file)
{
	VcAllocator A; File f(vc_below("old", 40), 0); std::vector<unsigned> x; uint64_t n = vc_len("n");
	{
		BinaryFileWriter w(A, f.path, vc_below("s", 9)); bool two = vc_bool("close");
		for (uint64_t i = 0; i < n; ++i) { x.push_back(vc_u32("w")); vc_assert(w.put(x.back()), "put succeeds"); }
		if (two) vc_assert(w.close(), "closed");
	}
	vc_assert(f.content() == x, "the file holds exactly the words written");
	BinaryFileReader r(A, f.path); unsigned w = 0; uint64_t i = 0;
	while (r.get(w)) { vc_assert(i < n && w == x[i], "the words are read in order"); ++i; }
	vc_assert(i == n && !r.get(w), "all words are read, then the end is reported"); vc_cover("end");
}
VC_BOUNDED(writer_full_device)
{
	VcAllocator A; BinaryFileWriter w(A, "/dev/full"); vc_assume(w.isOpen()); uint64_t n = vc_below("n", 5000);
	for (uint64_t i = 0; i < n; ++i) vc_assert(w.put((unsigned)i), "put succeeds");
	vc_assert(w.close() == (n == 0), "a full device is reported"); vc_cover("end");
}
#endif
