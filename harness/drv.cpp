// Conformance driver: executes a script of public-API calls of goost on live objects and records
// every call with its arguments and its result, one JSON event per line.
// It contains no knowledge of what a result should be; the TLA+ specification decides that.
#include <cerrno>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <sched.h>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <utility>
#include <vector>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ECBSink.h>
#include <goost/gost89/ECBSource.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/kuznyechik/Stream.h>

using namespace std;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
namespace kz = goost::kuznyechik;
using goost::Sink;
using goost::Source;
typedef vector<uint8_t> Bytes;

#ifdef REUSE
// What is freed last is handed out first, to the next object of the same size: objects made one after another
// live in the same place, so whatever takes an address for an identity confuses them.  Fresh and freed memory
// is filled.
struct Pile { void *top[64]; };
static thread_local Pile pile;
struct Head { size_t n; void *next; };
void *operator new(size_t n)
{
	const size_t c = (n + 15) / 16;
	if (c < 64 && pile.top[c]) {
		auto h = static_cast<Head *>(pile.top[c]);
		pile.top[c] = h->next;
		memset(h + 1, 0xa5, n);
		return h + 1;
	}
	auto h = static_cast<Head *>(malloc(sizeof(Head) + c * 16));
	if (!h) throw bad_alloc();
	h->n = c;
	memset(h + 1, 0xa5, n < 65536 ? n : 65536);
	return h + 1;
}
void operator delete(void *p) noexcept
{
	if (!p) return;
	auto h = static_cast<Head *>(p) - 1;
	if (h->n >= 64) { free(h); return; }
	memset(p, 0x5a, h->n * 16);
	h->next = pile.top[h->n];
	pile.top[h->n] = h;
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
#endif

// ---------------------------------------------------------------- environment and faults
// the caller's own exceptions: of several standard kinds, and of none
struct FaultMark { virtual ~FaultMark() = default; };
template <typename B> struct Fault final : B, FaultMark { Fault() : B("injected fault") {} };
struct FaultAlloc final : bad_alloc, FaultMark {};
struct FaultSys final : system_error, FaultMark {
	FaultSys() : system_error(make_error_code(errc::io_error), "injected fault") {}
};
struct FaultPlain final : FaultMark {};
static long kind = 0;
[[noreturn]] static void fail()
{
	switch (kind) {
	case 1: throw Fault<logic_error>();
	case 2: throw Fault<out_of_range>();
	case 3: throw Fault<invalid_argument>();
	case 4: throw Fault<range_error>();
	case 5: throw FaultSys();
	case 6: throw FaultAlloc();
	case 7: throw FaultPlain();
	case 8: throw Fault<length_error>();
	case 9: throw Fault<overflow_error>();
	default: throw Fault<runtime_error>();
	}
}
static thread_local long fuse = 0;        // 0: off, n: the n-th environment call from now fails
static thread_local bool faulted = false;
// how deep the stack was, at most, in the caller's objects during an operation
static thread_local uintptr_t top_of_stack = 0;
static thread_local size_t deepest = 0;
static void __attribute__((noinline)) depth()
{
	const auto here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
	if (top_of_stack > here) deepest = max(deepest, size_t(top_of_stack - here));
}
static void gate();
static void env_call()
{
	gate();
	depth();
	if (fuse > 0 && --fuse == 0) {
		faulted = true;
		fail();
	}
}

// ---------------------------------------------------------------- JSON output
static thread_local ostringstream *ev;
static string jb(const Bytes &b)
{
	string s = "[";
	for (size_t i = 0; i < b.size(); i++) {
		if (i) s += ",";
		s += to_string(b[i]);
	}
	return s + "]";
}
static string jw(uint32_t w)
{
	return "[" + to_string(w & 0xffff) + "," + to_string(w >> 16) + "]";
}
static string jt(const string &t)
{
	return jb(Bytes(t.begin(), t.end()));
}
static void put(const string &k, const string &v) { *ev << ",\"" << k << "\":" << v; }
static void puti(const string &k, long v) { put(k, to_string(v)); }

static Bytes le(const pair<uint32_t, uint32_t> &p)
{
	Bytes b(8);
	for (int i = 0; i < 4; i++) { b[i] = p.first >> (8 * i); b[4 + i] = p.second >> (8 * i); }
	return b;
}
static Bytes le(const pair<uint64_t, uint64_t> &p)
{
	Bytes b(16);
	for (int i = 0; i < 8; i++) { b[i] = p.first >> (8 * i); b[8 + i] = p.second >> (8 * i); }
	return b;
}
static uint64_t u64(const Bytes &b, size_t at = 0)
{
	uint64_t v = 0;
	for (int i = 0; i < 8; i++) v |= uint64_t(b.at(at + i)) << (8 * i);
	return v;
}
static uint32_t u32(const Bytes &b, size_t at = 0)
{
	uint32_t v = 0;
	for (int i = 0; i < 4; i++) v |= uint32_t(b.at(at + i)) << (8 * i);
	return v;
}
static vector<byte> tob(const Bytes &b)
{
	vector<byte> r;
	for (auto c : b) r.push_back(byte(c));
	return r;
}
static Bytes fromb(const vector<byte> &b)
{
	Bytes r;
	for (auto c : b) r.push_back(to_integer<uint8_t>(c));
	return r;
}

// ---------------------------------------------------------------- caller-side objects
static atomic<long> next_node{1};
static bool parallel = false;      // several threads: written before they start, read by them
struct WriteRec { long from, to; Bytes d; };
static thread_local vector<WriteRec> writes;

class MemSink final : public Sink {
public:
	// objects along one chain of writes share a buffer; each sees the first len bytes of it
	MemSink() : buf(make_shared<Bytes>()), len(0), id(next_node++) {}
	MemSink(const shared_ptr<Bytes> &buf, size_t len) : buf(buf), len(len), id(next_node++) {}
	shared_ptr<const Sink> write(const vector<byte> &d) const override
	{
		env_call();
		const auto n = fromb(d);
		auto b = ! parallel && buf->size() == len ? buf : make_shared<Bytes>(buf->begin(), buf->begin() + len);
		b->insert(b->end(), n.begin(), n.end());
		auto r = make_shared<MemSink>(b, b->size());
		if (!writes.empty() && writes.back().to == id) {
			writes.back().to = r->id;
			writes.back().d.insert(writes.back().d.end(), n.begin(), n.end());
		} else {
			writes.push_back({id, r->id, n});
		}
		return r;
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<MemSink>(buf, len); }
	Bytes data() const { return Bytes(buf->begin(), buf->begin() + len); }
	const shared_ptr<Bytes> buf;
	const size_t len;
	const long id;
};

class MemSource final : public Source {
public:
	MemSource(const shared_ptr<const Bytes> &data, size_t pos, const vector<size_t> &frag, size_t fi)
		: data(data), pos(pos), frag(frag), fi(fi) {}
	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		env_call();
		size_t n = min(size, data->size() - pos);
		if (!frag.empty()) n = min(n, frag[fi % frag.size()]);
		vector<byte> r;
		for (size_t i = 0; i < n; i++) r.push_back(byte((*data)[pos + i]));
		return {r, make_shared<MemSource>(data, pos + n, frag, fi + 1)};
	}
private:
	const shared_ptr<const Bytes> data;
	const size_t pos;
	const vector<size_t> frag;
	const size_t fi;
};

struct UCall { long h; int idx; bool ok; string val; };
static thread_local vector<UCall> ucalls;

class EnvKeyData final : public mg::KeyData {
public:
	EnvKeyData(long h, const vector<uint32_t> &w, bool vary)
		: h(h), w(w), vary(vary), calls(make_shared<atomic<uint32_t>>(0)) {}
	uint32_t key(int i) const override
	{
		try {
			env_call();
		} catch (...) {
			ucalls.push_back({h, i, false, "[0,0]"});
			throw;
		}
		uint32_t v = w.at(i);
		if (vary) v += (1 + calls->fetch_add(1, memory_order_relaxed)) * 0x01010101u;
		ucalls.push_back({h, i, true, jw(v)});
		return v;
	}
private:
	const long h;
	const vector<uint32_t> w;
	const bool vary;
	const shared_ptr<atomic<uint32_t>> calls;
};
class KdRef final : public mg::KeyData {
public:
	explicit KdRef(const shared_ptr<const mg::KeyData> &k) : k(k) {}
	uint32_t key(int i) const override { return k->key(i); }
private:
	const shared_ptr<const mg::KeyData> k;
};
class SbRef final : public mg::Sbox {
public:
	explicit SbRef(const shared_ptr<const mg::Sbox> &s) : s(s) {}
	uint32_t transform(uint32_t v) const override { return s->transform(v); }
private:
	const shared_ptr<const mg::Sbox> s;
};
class ToySbox final : public mg::Sbox {   // caller-supplied substitution
public:
	explicit ToySbox(uint32_t c) : c(c) {}
	uint32_t transform(uint32_t v) const override { env_call(); return v ^ c; }
private:
	const uint32_t c;
};
class ConSbox final : public mg::Sbox {   // caller-supplied: the same word for every input
public:
	explicit ConSbox(uint32_t c) : c(c) {}
	uint32_t transform(uint32_t) const override { env_call(); return c; }
private:
	const uint32_t c;
};
class EnvTab final : public mg::SboxByte::Tab {   // caller-supplied byte table
public:
	explicit EnvTab(const Bytes &t) : t(t) {}
	uint32_t translate(int index) const override { env_call(); return t.at(index & 0xff); }
private:
	const Bytes t;
};
class ToyKey final : public mg::Key {     // caller-supplied key
public:
	explicit ToyKey(uint32_t c) : c(c) {}
	uint32_t transform(uint32_t v, int i) const override
	{
		env_call();
		const int n = i + 1;
		const uint32_t x = v ^ c;
		return (x << n) | (x >> (32 - n));
	}
private:
	const uint32_t c;
};
class Cont final : public mg::Container {
public:
	Cont(const Bytes &k, const Bytes &m, const Bytes &s) : k(k), m(m), s(s) {}
	vector<byte> key() const override { env_call(); return tob(k); }
	vector<byte> mask() const override { return tob(m); }
	vector<byte> sbox() const override { env_call(); return tob(s); }
private:
	const Bytes k, m, s;
};
class EnvMBlock final : public mg::Block {
public:
	explicit EnvMBlock(const Bytes &b) : b(b) {}
	pair<uint32_t, uint32_t> value() const override { env_call(); return {u32(b, 0), u32(b, 4)}; }
private:
	const Bytes b;
};
class EnvKBlock final : public kz::Block {
public:
	EnvKBlock(long h, const Bytes &b, bool vary)
		: h(h), b(b), vary(vary), calls(make_shared<atomic<uint64_t>>(0)) {}
	pair<uint64_t, uint64_t> value() const override
	{
		try {
			env_call();
		} catch (...) {
			ucalls.push_back({h, 0, false, jb(Bytes(16))});
			throw;
		}
		pair<uint64_t, uint64_t> v{u64(b, 0), u64(b, 8)};
		if (vary) {
			const auto n = 1 + calls->fetch_add(1, memory_order_relaxed);
			v.first += n;
			v.second += n << 8;
		}
		ucalls.push_back({h, 0, true, jb(le(v))});
		return v;
	}
private:
	const long h;
	const Bytes b;
	const bool vary;
	const shared_ptr<atomic<uint64_t>> calls;
};
class EnvData final : public kz::Key::Data {
public:
	EnvData(const shared_ptr<const kz::Block> &l, const shared_ptr<const kz::Block> &h) : l(l), h(h) {}
	shared_ptr<const kz::Block> low() const override { return l; }
	shared_ptr<const kz::Block> high() const override { return h; }
private:
	const shared_ptr<const kz::Block> l, h;
};
typedef vector<pair<Bytes, size_t>> KBlocks;
class EnvIter final : public kz::Iterator {
public:
	EnvIter(const shared_ptr<const KBlocks> &d, size_t i) : d(d), i(i) {}
	pair<uint64_t, uint64_t> value() const override
	{
		env_call();
		return {u64((*d)[i].first, 0), u64((*d)[i].first, 8)};
	}
	bool last() const override { env_call(); return i + 1 == d->size(); }
	size_t size() const override { env_call(); return (*d)[i].second; }
	shared_ptr<const kz::Iterator> next() const override
	{
		env_call();
		if (i + 1 == d->size()) return {};
		return make_shared<EnvIter>(d, i + 1);
	}
private:
	const shared_ptr<const KBlocks> d;
	const size_t i;
};
class EnvStream final : public kz::Stream {
public:
	explicit EnvStream(const shared_ptr<const KBlocks> &d) : d(d) {}
	shared_ptr<const kz::Iterator> iter() const override
	{
		env_call();
		if (d->empty()) return {};
		return make_shared<EnvIter>(d, 0);
	}
private:
	const shared_ptr<const KBlocks> d;
};

// ---------------------------------------------------------------- handles
struct Obj {
	shared_ptr<const mg::Sbox> sb;
	shared_ptr<const mg::KeyData> kd;
	shared_ptr<const mg::Key> mk;
	shared_ptr<const mg::LazyKey> lk;
	shared_ptr<const mg::Container> ct;
	shared_ptr<const mg::Block> mb;
	shared_ptr<const Sink> sink;
	shared_ptr<const Source> src;
	shared_ptr<const kz::Block> kb;
	shared_ptr<const kz::Key> kk;
	shared_ptr<const kz::Key::Data> kdat;
	shared_ptr<const kz::Stream> st;
	shared_ptr<const kz::Iterator> it;
	shared_ptr<const mg::EncryptionBase> eb;
	shared_ptr<const g8::DataImit> di;
	function<unique_ptr<const mg::Sbox>()> sb2;      // another one like it, to be owned by what wraps it
	function<unique_ptr<const mg::KeyData>()> kd2;
};
static map<long, Obj> shared;                       // what the main thread made
static thread_local map<long, Obj> *mine = &shared;  // where this thread puts what it makes
#define H (*mine)
struct Skip { long h; };        // an argument handle does not exist: the call is not made
template <typename T> static const T &need(long h, T Obj::*m)
{
	auto i = H.find(h);
	if (i == H.end()) {
		i = shared.find(h);
		if (i == shared.end()) throw Skip{h};
	}
	if (!(i->second.*m)) throw Skip{h};
	return i->second.*m;
}

static const Obj &owned(long h)
{
	const auto i = H.find(h);
	return i == H.end() ? shared.at(h) : i->second;
}

// ---------------------------------------------------------------- script
struct Line {
	istringstream in;
	explicit Line(const string &l) : in(l) {}
	string tok() { string s; if (!(in >> s)) { cerr << "script: missing token\n"; _Exit(3); } return s; }
	bool more() { in >> ws; return !in.eof(); }
	long num() { return stol(tok()); }
	Bytes hex()
	{
		const auto s = tok();
		Bytes b;
		if (s == "-") return b;
		// pieces HEX or HEX*count, joined by '+'
		istringstream ps(s);
		string p;
		while (getline(ps, p, '+')) {
			long n = 1;
			const auto st = p.find('*');
			if (st != string::npos) { n = stol(p.substr(st + 1)); p = p.substr(0, st); }
			Bytes q;
			for (size_t i = 0; i + 1 < p.size(); i += 2) q.push_back(stoul(p.substr(i, 2), nullptr, 16));
			for (long i = 0; i < n; i++) b.insert(b.end(), q.begin(), q.end());
		}
		return b;
	}
	string text() { const auto b = hex(); return string(b.begin(), b.end()); }
	uint32_t word() { return stoul(tok(), nullptr, 16); }
	Obj &obj()
	{
		const long h = num();
		auto i = H.find(h);
		if (i == H.end()) i = shared.find(h);
		if (i == shared.end()) { cerr << "script: no handle " << h << "\n"; _Exit(3); }
		return i->second;
	}
};

static vector<uint32_t> words(Line &a)
{
	const long n = a.num();
	vector<uint32_t> w;
	for (long i = 0; i < n; i++) w.push_back(a.word());
	return w;
}
static string jws(const vector<uint32_t> &w)
{
	string s = "[";
	for (size_t i = 0; i < w.size(); i++) s += (i ? "," : "") + jw(w[i]);
	return s + "]";
}

template <typename B> using SP = shared_ptr<const B>;

template <typename X, typename B>
static SP<B> xored(const vector<SP<B>> &v)
{
	switch (v.size()) {
	case 2: return make_shared<X>(v[0], v[1]);
	case 3: return make_shared<X>(v[0], v[1], v[2]);
	case 4: return make_shared<X>(v[0], v[1], v[2], v[3]);
	default: return make_shared<X>(v[0], v[1], v[2], v[3], v[4]);
	}
}

// with whatever kind of key the constructor accepts
template <typename C> static SP<mg::Block> ciphered(const SP<mg::Block> &b, long k)
{
	if constexpr (is_constructible_v<C, const SP<mg::Block> &, const SP<mg::Key> &>)
		return make_shared<C>(b, need(k, &Obj::mk));
	else
		return make_shared<C>(b, need(k, &Obj::lk));
}

// ---------------------------------------------------------------- call depth
// Objects that hold no data and note how deep the stack is whenever the library calls or releases them.
class DeepSink final : public Sink {
public:
	~DeepSink() override { depth(); }
	shared_ptr<const Sink> write(const vector<byte> &) const override { depth(); return make_shared<DeepSink>(); }
	shared_ptr<const Sink> finalize() const override { depth(); return make_shared<DeepSink>(); }
};
class DeepSource final : public Source {
public:
	DeepSource(size_t left, size_t frag) : left(left), frag(frag) {}
	~DeepSource() override { depth(); }
	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		depth();
		const size_t n = min(min(size, left), frag ? frag : left);
		return {vector<byte>(n, byte(left)), make_shared<DeepSource>(left - n, frag)};
	}
private:
	const size_t left, frag;
};
class DeepIter final : public kz::Iterator {
public:
	explicit DeepIter(size_t left) : left(left) {}
	~DeepIter() override { depth(); }
	pair<uint64_t, uint64_t> value() const override { depth(); return {left, 0}; }
	bool last() const override { depth(); return left == 1; }
	size_t size() const override { depth(); return 16; }
	shared_ptr<const kz::Iterator> next() const override
	{
		depth();
		if (left == 1) return {};
		return make_shared<DeepIter>(left - 1);
	}
private:
	const size_t left;
};
class DeepStream final : public kz::Stream {
public:
	explicit DeepStream(size_t n) : n(n) {}
	~DeepStream() override { depth(); }
	shared_ptr<const kz::Iterator> iter() const override { depth(); if (!n) return {}; return make_shared<DeepIter>(n); }
private:
	const size_t n;
};

static SP<Sink> deep_sink(const string &kind, const SP<Sink> &d, const SP<mg::Key> &k)
{
	if (kind == "cfb") return make_shared<mg::CFBSink>(d, k, 1, 2);
	if (kind == "cfb89") return make_shared<g8::CFBSink>(d, k, 1);
	return make_shared<mg::ECBSink>(d, k);
}
static SP<Source> deep_source(const string &kind, const SP<Source> &u, const SP<mg::Key> &k)
{
	if (kind == "cfb") return make_shared<mg::CFBSource>(u, k, 1, 2);
	if (kind == "cfb89") return make_shared<g8::CFBSource>(u, k, 1);
	return make_shared<mg::ECBSource>(u, k);
}
// do something with n blocks; whatever it made is gone when it returns
static void deep_run(const string &what, const string &kind, long k, size_t n)
{
	if (what == "write") {               // in one write
		SP<Sink> s = deep_sink(kind, make_shared<DeepSink>(), need(k, &Obj::mk));
		s = s->write(vector<byte>(8 * n));
		s->finalize();
	} else if (what == "writes") {       // in many
		SP<Sink> s = deep_sink(kind, make_shared<DeepSink>(), need(k, &Obj::mk));
		const vector<byte> d(kind == "ecb" ? 8 : 7);
		for (size_t i = 0; i < n; i++) s = s->write(d);
		s->finalize();
	} else if (what == "keep") {         // all of the chain kept, and released in order
		vector<SP<Sink>> all{deep_sink(kind, make_shared<DeepSink>(), need(k, &Obj::mk))};
		const vector<byte> d(8);
		for (size_t i = 0; i < n; i++) all.push_back(all.back()->write(d));
		for (auto &s : all) s.reset();
	} else if (what == "read") {
		SP<Source> s = deep_source(kind, make_shared<DeepSource>(8 * n, 0), need(k, &Obj::mk));
		for (bool more = true; more;) {
			auto p = s->read(numeric_limits<size_t>::max());
			more = !p.first.empty();
			s = p.second;
		}
	} else if (what == "reads") {
		SP<Source> s = deep_source(kind, make_shared<DeepSource>(8 * n, 5), need(k, &Obj::mk));
		for (bool more = true; more;) {
			auto p = s->read(kind == "ecb" ? 8 : 3);
			more = !p.first.empty();
			s = p.second;
		}
	} else if (what == "hold") {         // the first of a chain kept while walking along it, and released last
		const SP<Sink> s = deep_sink(kind, make_shared<DeepSink>(), need(k, &Obj::mk));
		const SP<Source> r = deep_source(kind, make_shared<DeepSource>(8 * n, 0), need(k, &Obj::mk));
		const vector<byte> d(8);
		auto t = s;
		for (size_t i = 0; i < n; i++) { t = t->write(d); t->finalize(); }
		auto u = r;
		for (size_t i = 0; i < n; i++) u = u->read(8).second;
	} else if (what == "mac") {
		mg::Imit(make_shared<DeepSource>(8 * n, kind == "ecb" ? 8 : 3), need(k, &Obj::lk)).value();
	} else if (what == "imit") {
		g8::DataImit(vector<uint8_t>(8 * n), need(k, &Obj::lk)).value();
	} else if (what == "kmac") {
		kz::Imit(make_shared<DeepStream>(n), need(k, &Obj::kk)).value();
	} else if (what == "cmac") {
		kz::Imit(make_shared<kz::StCTREncrypted>(make_shared<DeepStream>(n), need(k, &Obj::kk), 3), need(k, &Obj::kk)).value();
	} else {                             // a walk over a stream: the caller's, a memory stream, either encrypted
		SP<kz::Stream> s = make_shared<DeepStream>(n);
		if (what == "mem" || what == "cmem") s = make_shared<kz::StMemory>(vector<uint64_t>(2 * n, 5));
		if (what == "ctr" || what == "cmem") s = make_shared<kz::StCTREncrypted>(s, need(k, &Obj::kk), 3);
		const auto first = kind == "hold" ? s->iter() : SP<kz::Iterator>();
		auto i = first ? first : s->iter();
		s.reset();
		for (size_t j = 1; i; j++) {
			if (what != "ctr" && what != "cmem" || j % 16 == 0 || j + 2 > n) i->value();
			i->last();
			i->size();
			i = i->next();
		}
	}
}
static size_t __attribute__((noinline)) deep_measure(const string &what, const string &kind, long k, size_t n)
{
	top_of_stack = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
	deepest = 0;
	deep_run(what, kind, k, n);
	return deepest;
}

// a block made from a place in the caller's memory: at any address, ending where the memory ends, and
// the caller's own to change and free again as soon as the block is there
template <typename T, typename B>
static SP<T> from_memory(const B &b)
{
	static size_t turn = 0;
	const size_t off = turn++ % 8;
	vector<unsigned char> m(off + b.size());
	memcpy(m.data() + off, b.data(), b.size());
	auto p = make_shared<T>(static_cast<const void *>(m.data() + off));
	fill(m.begin(), m.end(), 0xee);
	return p;
}

static void exec(const string &op, Line &a)
{
	// every op that creates an object registers it only after the whole call succeeded
	if (op == "drop") { const long h = a.num(); puti("h", h); H.erase(h); return; }
	if (op == "deep") {                  // how much deeper the stack gets with n2 blocks than with n1
		const auto what = a.tok(), knd = a.tok(); const long k = a.num(), n1 = a.num(), n2 = a.num();
		puti("k", k); puti("n1", n1); puti("n2", n2);
		deep_measure(what, knd, k, n1);  // whatever happens only once
		puti("base", long(deep_measure(what, knd, k, n1)));
		puti("deep", long(deep_measure(what, knd, k, n2)));
		return;
	}
	if (op == "bulk") {                  // a very long message, of one mode, at once; its result cut up as the message is
		const auto what = a.tok(); const long k = a.num(); const auto pre = a.hex(), per = a.hex(); const long cnt = a.num();
		const auto tail = a.hex(); const long grain = a.num();
		vector<Bytes> iv;
		vector<size_t> pos;
		put("what", "\"" + what + "\""); puti("k", k); put("pre", jb(pre)); put("per", jb(per)); puti("cnt", cnt); put("tail", jb(tail));
		puti("grain", grain);
		const bool ctr = what == "t_ctr";
		for (long n = a.num(); n > 0; n--) iv.push_back(a.hex());
		string s = "[";
		for (size_t i = 0; i < iv.size(); i++) s += (i ? "," : "") + jb(iv[i]);
		put("iv", s + "]");
		if (ctr) for (long n = a.num(); n > 0; n--) pos.push_back(a.num());
		Bytes m = pre;
		m.reserve(pre.size() + per.size() * cnt + tail.size());
		for (long i = 0; i < cnt; i++) m.insert(m.end(), per.begin(), per.end());
		m.insert(m.end(), tail.begin(), tail.end());
		Bytes out;
		if (what[0] == 's') {
			const auto key = need(k, &Obj::mk);
			SP<Sink> x = make_shared<MemSink>();
			if (what == "s_cfb89") x = make_shared<g8::CFBSink>(x, key, u64(iv[0]));
			else if (what == "s_cfb") x = make_shared<mg::CFBSink>(x, key, u64(iv[0]), u64(iv[1]));
			else if (what == "s_ecb") x = make_shared<mg::ECBSink>(x, key);
			else x = make_shared<g8::ECBSink>(x, key);
			const size_t g = grain ? grain : m.size();
			for (size_t i = 0; i < m.size(); i += g) {
				x = x->write(tob(Bytes(m.begin() + i, m.begin() + min(i + g, m.size()))));
				if (!x) throw logic_error("write returned no sink");
			}
			x = x->finalize();
			const auto y = dynamic_pointer_cast<const MemSink>(x);
			if (!y) throw logic_error("finalize did not return the sink underneath");
			out = y->data();
		} else if (what[0] == 'c') {
			const auto key = need(k, &Obj::mk);
			SP<Source> x = make_shared<MemSource>(make_shared<const Bytes>(m), 0, vector<size_t>(), 0);
			if (what == "c_cfb89") x = make_shared<g8::CFBSource>(x, key, u64(iv[0]));
			else if (what == "c_cfb") x = make_shared<mg::CFBSource>(x, key, u64(iv[0]), u64(iv[1]));
			else if (what == "c_ecb") x = make_shared<mg::ECBSource>(x, key);
			else x = make_shared<g8::ECBSource>(x, key);
			while (true) {
				const auto p = x->read(grain ? size_t(grain) : numeric_limits<size_t>::max());
				if (p.first.empty() || out.size() > m.size()) break;
				const auto n = fromb(p.first);
				out.insert(out.end(), n.begin(), n.end());
				x = p.second;
				if (!x) throw logic_error("read returned no source");
			}
		} else if (what == "mac") {
			const auto x = make_shared<MemSource>(make_shared<const Bytes>(m), 0, grain ? vector<size_t>{size_t(grain)} : vector<size_t>(), 0);
			put("out", jb(le(mg::Imit(x, need(k, &Obj::lk)).value())));
			return;
		} else if (what == "di") {
			put("out", jb(g8::DataImit(m, need(k, &Obj::lk)).value()));
			return;
		} else {
			vector<uint64_t> w;
			for (size_t i = 0; i + 8 <= m.size(); i += 8) w.push_back(u64(m, i));
			SP<kz::Stream> x = make_shared<kz::StMemory>(w);
			const auto key = need(k, &Obj::kk);
			if (!ctr) {
				put("out", jb(le(kz::Imit(x, key).value())));
				return;
			}
			x = make_shared<kz::StCTREncrypted>(x, key, u64(iv[0]));
			size_t n = 0, last = 0;
			string v = "[", z = "[";
			for (auto i = x->iter(); i; i = i->next(), n++) {
				last += i->size();
				const auto at = find(pos.begin(), pos.end(), n);
				if (at == pos.end() && (grain == 0 || n % grain)) continue;
				const auto b = le(i->value());
				if (at != pos.end()) { v += (v.size() > 1 ? "," : "") + jb(b); z += (z.size() > 1 ? "," : "") + to_string(n); }
			}
			put("outs", v + "]"); put("pos", z + "]"); puti("len", last);
			return;
		}
		const size_t A = min(pre.size(), out.size()), B = per.size();
		put("head", jb(Bytes(out.begin(), out.begin() + A)));
		size_t n = 0, at = A;
		while (at + B <= out.size() && equal(out.begin() + A, out.begin() + A + B, out.begin() + at)) { n++; at += B; }
		put("body", jb(n ? Bytes(out.begin() + A, out.begin() + A + B) : Bytes()));
		puti("n", n);
		put("rest", jb(Bytes(out.begin() + at, out.begin() + min(out.size(), at + 1000))));
		puti("len", out.size());
		return;
	}
	if (op == "fuse") { fuse = a.num(); kind = a.more() ? a.num() : 0; puti("n", fuse); return; }

	// --- S-boxes
	if (op == "sb_nib") {
		const long r = a.num(); const auto b = a.hex();   // 128 nibbles, one per byte
		puti("r", r); put("pi", jb(b));
		vector<vector<int>> p(8);
		for (int i = 0; i < 128; i++) p[i / 16].push_back(b[i]);
		H[r].sb = make_shared<mg::SboxNibble>(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
		H[r].sb2 = [p] { return make_unique<mg::SboxNibble>(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); };
	} else if (op == "sb_byte") {
		const long r = a.num(); const auto b = a.hex();
		puti("r", r); put("uz", jb(b));
		H[r].sb = make_shared<mg::SboxByte>(b);
		H[r].sb2 = [b] { return make_unique<mg::SboxByte>(b); };
	} else if (op == "sb_tabs") {
		const long r = a.num(); const auto b = a.hex();   // four tables of 256
		puti("r", r); put("tabs", jb(b));
		const auto tab = [b](int i) { return make_unique<EnvTab>(Bytes(b.begin() + i * 256, b.begin() + i * 256 + 256)); };
		const auto box = [tab] { return make_unique<mg::SboxByte>(tab(0), tab(1), tab(2), tab(3)); };
		H[r].sb = box();
		H[r].sb2 = box;
	} else if (op == "sb_tw") {
		const long r = a.num(); puti("r", r); const long h = a.num(); puti("h", h);
		const auto s = need(h, &Obj::sb);
		const auto own = owned(h).sb2;
		const auto box = [own, s]() -> unique_ptr<const mg::Sbox> {
			return make_unique<mg::SboxTwisted>(own ? own() : make_unique<SbRef>(s));
		};
		H[r].sb = box();
		H[r].sb2 = box;
	} else if (op == "sb_r3412") {
		const long r = a.num(); puti("r", r);
		H[r].sb = make_shared<mg::SboxR3412>();
		H[r].sb2 = [] { return make_unique<mg::SboxR3412>(); };
	} else if (op == "sb_toy") {
		const long r = a.num(); const auto c = a.word(); puti("r", r); put("c", jw(c));
		H[r].sb = make_shared<ToySbox>(c);
	} else if (op == "sb_con") {
		const long r = a.num(); const auto c = a.word(); puti("r", r); put("c", jw(c));
		H[r].sb = make_shared<ConSbox>(c);
	} else if (op == "sb_use") {
		const long h = a.num(); const auto v = a.word(); puti("h", h); put("v", jw(v));
		put("out", jw(need(h, &Obj::sb)->transform(v)));
	// --- key data
	} else if (op == "kd_str") {
		const long r = a.num(); const auto t = a.text(); puti("r", r); put("t", jt(t));
		H[r].kd = make_shared<mg::KeyDataString>(t);
		H[r].kd2 = [t] { return make_unique<mg::KeyDataString>(t); };
	} else if (op == "kd_nat") {
		const long r = a.num(); const auto w = words(a); puti("r", r); put("w", jws(w));
		H[r].kd = make_shared<mg::KeyDataNative>(w);
		H[r].kd2 = [w] { return make_unique<mg::KeyDataNative>(w); };
	} else if (op == "kd_cache") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto k = need(h, &Obj::kd);
		if (const auto own = owned(h).kd2) {
			H[r].kd2 = [own] { return make_unique<mg::KeyCachedData>(own()); };
			H[r].kd = H[r].kd2();
		} else {
			H[r].kd = make_shared<mg::KeyCachedData>(make_unique<KdRef>(k));
		}
	} else if (op == "kd_env") {
		const long r = a.num(); const long vary = a.num(); const auto w = words(a);
		puti("r", r); put("vary", vary ? "true" : "false"); put("w", jws(w));
		H[r].kd = make_shared<EnvKeyData>(r, w, vary);
	} else if (op == "kd_use") {
		const long h = a.num(); const int i = a.num(); puti("h", h); puti("i", i);
		put("out", jw(need(h, &Obj::kd)->key(i)));
	// --- keys
	} else if (op == "k_str") {
		const long r = a.num(); const auto t = a.text(); puti("r", r); put("t", jt(t));
		auto k = make_shared<mg::LazyKey>(t);
		H[r].lk = k; H[r].mk = k;
	} else if (op == "k_strsb") {
		const long r = a.num(); const auto t = a.text(); const long s = a.num();
		puti("r", r); put("t", jt(t)); puti("sb", s);
		const auto sb = need(s, &Obj::sb);
		auto k = make_shared<mg::LazyKey>(t, sb);
		H[r].lk = k; H[r].mk = k;
	} else if (op == "k_nat") {
		const long r = a.num(); const long s = a.num(); const auto w = words(a);
		puti("r", r); puti("sb", s); put("w", jws(w));
		const auto sb = need(s, &Obj::sb);
		auto k = make_shared<mg::LazyKey>(w, sb);
		H[r].lk = k; H[r].mk = k;
	} else if (op == "k_kd") {
		const long r = a.num(); const long d = a.num(); const long s = a.num();
		puti("r", r); puti("kd", d); puti("sb", s);
		const auto sb = need(s, &Obj::sb); const auto kd = need(d, &Obj::kd);
		const auto own = r % 2 ? owned(d).kd2 : nullptr;
		auto k = make_shared<mg::LazyKey>(own ? own() : make_unique<const KdRef>(kd), sb);
		H[r].lk = k; H[r].mk = k;
	} else if (op == "k_toy") {
		const long r = a.num(); const auto c = a.word(); puti("r", r); put("c", jw(c));
		H[r].mk = make_shared<ToyKey>(c);
	} else if (op == "k_use") {
		const long h = a.num(); const auto v = a.word(); const int i = a.num();
		puti("h", h); put("v", jw(v)); puti("i", i);
		put("out", jw(need(h, &Obj::mk)->transform(v, i)));
	} else if (op == "cont") {
		const long r = a.num(); const auto k = a.hex(); const auto m = a.hex(); const auto s = a.hex();
		puti("r", r); put("key", jb(k)); put("sbox", jb(s));
		H[r].ct = make_shared<Cont>(k, m, s);
	// --- Magma blocks
	} else if (op == "b_raw") {
		const long r = a.num(); const auto how = a.tok(); const auto b = a.hex();
		puti("r", r); put("b", jb(b));
		SP<mg::Block> p;
		if (how == "lh") p = make_shared<mg::BlkRaw>(u32(b, 0), u32(b, 4));
		else if (how == "pair") p = make_shared<mg::BlkRaw>(pair<uint32_t, uint32_t>(u32(b, 0), u32(b, 4)));
		else if (how == "blk") p = make_shared<mg::BlkRaw>(SP<mg::Block>(make_shared<mg::BlkRaw>(u32(b, 0), u32(b, 4))));
		else if (how == "u64") p = make_shared<mg::BlkRaw>(u64(b));
		else if (how == "vec") p = make_shared<mg::BlkRaw>(b);
		else if (how == "ptr") p = from_memory<mg::BlkRaw>(b);
		else p = make_shared<mg::BlkRaw>();
		H[r].mb = p;
	} else if (op == "b_env") {
		const long r = a.num(); const auto b = a.hex(); puti("r", r); put("b", jb(b));
		H[r].mb = make_shared<EnvMBlock>(b);
	} else if (op == "b_str") {
		const long r = a.num(); const auto t = a.text(); puti("r", r); put("t", jt(t));
		H[r].mb = make_shared<mg::BlkString>(t);
	} else if (op == "b_swap") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto b = need(h, &Obj::mb); H[r].mb = make_shared<mg::BlkSwapped>(b);
	} else if (op == "b_xor") {
		const long r = a.num(); const long n = a.num(); puti("r", r);
		vector<SP<mg::Block>> v; vector<long> hs; string s = "[";
		for (long i = 0; i < n; i++) { hs.push_back(a.num()); s += (i ? "," : "") + to_string(hs.back()); }
		put("hs", s + "]");
		for (const auto h : hs) v.push_back(need(h, &Obj::mb));
		H[r].mb = xored<mg::BlkXored, mg::Block>(v);
	} else if (op == "b_shl") {
		const long r = a.num(); const long h = a.num(); const int n = a.num(); puti("r", r); puti("h", h); puti("n", n);
		const auto b = need(h, &Obj::mb); H[r].mb = make_shared<mg::BlkShifted>(b, n);
	} else if (op == "b_enc" || op == "b_dec" || op == "b_fwd" || op == "b_bwd" || op == "b_imit") {
		const long r = a.num(); const long h = a.num(); const long k = a.num();
		puti("r", r); puti("h", h); puti("k", k);
		const auto b = need(h, &Obj::mb);
		SP<mg::Block> p;
		if (op == "b_enc") p = ciphered<mg::BlkEncrypted>(b, k);
		else if (op == "b_dec") p = ciphered<mg::BlkDecrypted>(b, k);
		else if (op == "b_fwd") p = ciphered<mg::BlkForwarded>(b, k);
		else if (op == "b_bwd") p = ciphered<mg::BlkBackwarded>(b, k);
		else p = make_shared<mg::BlkRaw>(g8::ImitedBlock(mg::BlkRaw(b), need(k, &Obj::lk)).value().value());
		H[r].mb = p;
	} else if (op == "b_val") {
		const long h = a.num(); puti("h", h);
		put("out", jb(le(need(h, &Obj::mb)->value())));
	} else if (op == "eb_new") {
		const long r = a.num(); const long k = a.num(); puti("r", r); puti("k", k);
		const auto key = need(k, &Obj::mk);
		H[r].eb = make_shared<mg::EncryptionBase>(key);
	} else if (op == "eb_use") {
		const long h = a.num(); const auto b = a.hex(); puti("h", h); put("b", jb(b));
		const uint64_t v = need(h, &Obj::eb)->transform(u64(b));
		Bytes o(8);
		for (int i = 0; i < 8; i++) o[i] = v >> (8 * i);
		put("out", jb(o));
	// --- sinks
	} else if (op == "s_mem") {
		const long r = a.num(); puti("r", r);
		auto s = make_shared<MemSink>();
		puti("node", s->id);
		H[r].sink = s;
	} else if (op == "s_cfb89" || op == "s_cfb" || op == "s_ecb" || op == "s_ecb89") {
		const long r = a.num(); const long d = a.num(); const long k = a.num();
		puti("r", r); puti("dn", d); puti("k", k);
		const auto dn = need(d, &Obj::sink); const auto key = need(k, &Obj::mk);
		SP<Sink> s;
		if (op == "s_cfb89") {
			const auto iv = a.hex(); put("iv", jb(iv));
			s = make_shared<g8::CFBSink>(dn, key, u64(iv));
		} else if (op == "s_cfb") {
			const auto l = a.hex(); const auto rr = a.hex(); put("ivl", jb(l)); put("ivr", jb(rr));
			s = make_shared<mg::CFBSink>(dn, key, u64(l), u64(rr));
		} else if (op == "s_ecb") {
			s = make_shared<mg::ECBSink>(dn, key);
		} else {
			s = make_shared<g8::ECBSink>(dn, key);
		}
		H[r].sink = s;
	} else if (op == "s_write") {
		const long h = a.num(); const long r = a.num(); const auto d = a.hex();
		puti("h", h); puti("r", r); put("d", jb(d));
		const auto s = need(h, &Obj::sink)->write(tob(d));
		if (!s) throw logic_error("write returned no sink");
		H[r].sink = s;
	} else if (op == "s_many") {             // the same write, n times
		const long h = a.num(); const long r = a.num(); const long n = a.num(); const auto d = a.hex();
		puti("h", h); puti("r", r); puti("n", n); put("d", jb(d));
		auto s = need(h, &Obj::sink);
		for (long i = 0; i < n; i++) {
			s = s->write(tob(d));
			if (!s) throw logic_error("write returned no sink");
		}
		H[r].sink = s;
	} else if (op == "s_fin") {
		const long h = a.num(); const long r = a.num(); puti("h", h); puti("r", r);
		const auto s = need(h, &Obj::sink)->finalize();
		if (!s) throw logic_error("finalize returned no sink");
		const auto m = dynamic_pointer_cast<const MemSink>(s);
		put("mem", m ? "true" : "false");
		puti("node", m ? m->id : 0);
		put("out", jb(m ? m->data() : Bytes()));
		H[r].sink = s;
	// --- sources
	} else if (op == "c_mem") {
		const long r = a.num(); const auto d = a.hex(); const long n = a.num();
		puti("r", r); put("d", jb(d));
		vector<size_t> f;
		for (long i = 0; i < n; i++) f.push_back(a.num());
		H[r].src = make_shared<MemSource>(make_shared<const Bytes>(d), 0, f, 0);
	} else if (op == "c_from") {             // source over what a caller's sink has received
		const long r = a.num(); const long h = a.num(); const long n = a.num();
		puti("r", r); puti("h", h);
		const auto m = dynamic_pointer_cast<const MemSink>(need(h, &Obj::sink));
		if (!m) throw logic_error("not the caller's sink");
		put("d", jb(m->data()));
		vector<size_t> f;
		for (long i = 0; i < n; i++) f.push_back(a.num());
		H[r].src = make_shared<MemSource>(make_shared<const Bytes>(m->data()), 0, f, 0);
	} else if (op == "same") {               // read a source to its end, in one sitting
		const long h = a.num(); const auto d = a.hex(); puti("h", h); put("d", jb(d));
		auto s = need(h, &Obj::src);
		Bytes all;
		while (true) {
			const auto p = s->read(64);
			if (p.first.empty()) break;
			const auto n = fromb(p.first);
			all.insert(all.end(), n.begin(), n.end());
			if (all.size() > d.size() + 4096 || !p.second) break;
			s = p.second;
		}
		put("out", jb(all));
	} else if (op == "c_cfb89" || op == "c_cfb" || op == "c_ecb" || op == "c_ecb89") {
		const long r = a.num(); const long u = a.num(); const long k = a.num();
		puti("r", r); puti("up", u); puti("k", k);
		const auto up = need(u, &Obj::src); const auto key = need(k, &Obj::mk);
		SP<Source> s;
		if (op == "c_cfb89") {
			const auto iv = a.hex(); put("iv", jb(iv));
			s = make_shared<g8::CFBSource>(up, key, u64(iv));
		} else if (op == "c_cfb") {
			const auto l = a.hex(); const auto rr = a.hex(); put("ivl", jb(l)); put("ivr", jb(rr));
			s = make_shared<mg::CFBSource>(up, key, u64(l), u64(rr));
		} else if (op == "c_ecb") {
			s = make_shared<mg::ECBSource>(up, key);
		} else {
			s = make_shared<g8::ECBSource>(up, key);
		}
		H[r].src = s;
	} else if (op == "c_ecbc") {
		const long r = a.num(); const long u = a.num(); const long c = a.num();
		puti("r", r); puti("up", u); puti("ct", c);
		const auto up = need(u, &Obj::src); const auto ct = need(c, &Obj::ct);
		H[r].src = make_shared<mg::ECBSource>(up, ct);
	} else if (op == "c_read") {
		const long h = a.num(); const long r = a.num(); const long n = a.num();
		puti("h", h); puti("r", r); puti("n", n);
		const auto p = need(h, &Obj::src)->read(n < 0 ? numeric_limits<size_t>::max() : size_t(n));
		if (!p.second) throw logic_error("read returned no source");
		put("out", jb(fromb(p.first)));
		H[r].src = p.second;
	} else if (op == "c_many") {             // the same read, k times
		const long h = a.num(); const long r = a.num(); const long n = a.num(); const long k = a.num();
		puti("h", h); puti("r", r); puti("n", n); puti("k", k);
		auto s = need(h, &Obj::src);
		Bytes all;
		for (long i = 0; i < k; i++) {
			const auto p = s->read(n);
			if (!p.second) throw logic_error("read returned no source");
			const auto q = fromb(p.first);
			all.insert(all.end(), q.begin(), q.end());
			s = p.second;
		}
		put("out", jb(all));
		H[r].src = s;
	} else if (op == "mac") {
		const long h = a.num(); const long k = a.num(); puti("h", h); puti("k", k);
		const auto s = need(h, &Obj::src); const auto key = need(k, &Obj::lk);
		put("out", jb(le(mg::Imit(s, key).value())));
	} else if (op == "b_mac") {
		const long r = a.num(); const long h = a.num(); const long k = a.num(); puti("r", r); puti("h", h); puti("k", k);
		const auto s = need(h, &Obj::src); const auto key = need(k, &Obj::lk);
		H[r].mb = make_shared<mg::Imit>(s, key);
	} else if (op == "di_new") {
		const long r = a.num(); const long k = a.num(); const auto d = a.hex(); puti("r", r); puti("k", k); put("d", jb(d));
		const auto key = need(k, &Obj::lk);
		H[r].di = make_shared<g8::DataImit>(d, key);
	} else if (op == "di_val") {
		const long h = a.num(); puti("h", h);
		put("out", jb(need(h, &Obj::di)->value()));
	// --- Kuznyechik blocks
	} else if (op == "qb_raw") {
		const long r = a.num(); const auto how = a.tok(); const auto b = a.hex();
		puti("r", r); put("b", jb(b));
		const uint64_t l = u64(b, 0), h = u64(b, 8);
		SP<kz::Block> p;
		if (how == "lh") p = make_shared<kz::BlkRaw>(l, h);
		else if (how == "pair") p = make_shared<kz::BlkRaw>(pair<uint64_t, uint64_t>(l, h));
		else if (how == "blk") p = make_shared<kz::BlkRaw>(SP<kz::Block>(make_shared<kz::BlkRaw>(l, h)));
		else if (how == "ptr") p = from_memory<kz::BlkRaw>(b);
		else if (how == "low") p = make_shared<kz::BlkRaw>(l);
		else p = make_shared<kz::BlkRaw>();
		H[r].kb = p;
	} else if (op == "qb_env") {
		const long r = a.num(); const long vary = a.num(); const auto b = a.hex();
		puti("r", r); put("vary", vary ? "true" : "false"); put("b", jb(b));
		H[r].kb = make_shared<EnvKBlock>(r, b, vary);
	} else if (op == "qb_str") {
		const long r = a.num(); const auto t = a.text(); puti("r", r); put("t", jt(t));
		H[r].kb = make_shared<kz::BlkString>(t);
	} else if (op == "qb_xor") {
		const long r = a.num(); const long n = a.num(); puti("r", r);
		vector<SP<kz::Block>> v; vector<long> hs; string s = "[";
		for (long i = 0; i < n; i++) { hs.push_back(a.num()); s += (i ? "," : "") + to_string(hs.back()); }
		put("hs", s + "]");
		for (const auto h : hs) v.push_back(need(h, &Obj::kb));
		H[r].kb = xored<kz::BlkXored, kz::Block>(v);
	} else if (op == "qb_shl") {
		const long r = a.num(); const long h = a.num(); const int n = a.num(); puti("r", r); puti("h", h); puti("n", n);
		const auto b = need(h, &Obj::kb); H[r].kb = make_shared<kz::BlkShifted>(b, n);
	} else if (op == "qb_inc" || op == "qb_s" || op == "qb_r" || op == "qb_l" || op == "qb_cache") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto b = need(h, &Obj::kb);
		SP<kz::Block> p;
		if (op == "qb_inc") p = make_shared<kz::BlkIncremented>(b);
		else if (op == "qb_s") p = make_shared<kz::BlkS>(b);
		else if (op == "qb_r") p = make_shared<kz::BlkR>(b);
		else if (op == "qb_l") p = make_shared<kz::BlkL>(b);
		else p = make_shared<kz::BlkCached>(b);
		H[r].kb = p;
	} else if (op == "qb_iter") {
		const long r = a.num(); const long x = a.num(); const long y = a.num(); const int c1 = a.num(); const int c2 = a.num();
		puti("r", r); puti("ka", x); puti("kb", y); puti("c1", c1); puti("c2", c2);
		const auto ka = need(x, &Obj::kb), kb = need(y, &Obj::kb);
		H[r].kb = make_shared<kz::BlkIterKey>(ka, kb, c1, c2);
	} else if (op == "qb_enc") {
		const long r = a.num(); const long h = a.num(); const long k = a.num(); puti("r", r); puti("h", h); puti("k", k);
		const auto b = need(h, &Obj::kb); const auto key = need(k, &Obj::kk);
		H[r].kb = make_shared<kz::BlkEncrypted>(b, key);
	} else if (op == "qb_kenc") {
		const long r = a.num(); const long h = a.num(); const long k = a.num(); puti("r", r); puti("h", h); puti("k", k);
		const auto b = need(h, &Obj::kb); const auto key = need(k, &Obj::kk);
		H[r].kb = key->encrypt(b);
	} else if (op == "qb_val") {
		const long h = a.num(); puti("h", h);
		put("out", jb(le(need(h, &Obj::kb)->value())));
	} else if (op == "qk_str") {
		const long r = a.num(); const auto t = a.text(); puti("r", r); put("t", jt(t));
		H[r].kk = make_shared<kz::Key>(t);
	} else if (op == "qk_data") {
		const long r = a.num(); const long l = a.num(); const long h = a.num(); puti("r", r); puti("lo", l); puti("hi", h);
		const auto lb = need(l, &Obj::kb), hb = need(h, &Obj::kb);
		H[r].kk = make_shared<kz::Key>(SP<kz::Key::Data>(make_shared<EnvData>(lb, hb)));
	} else if (op == "qd_str") {
		const long r = a.num(); const auto t = a.text(); puti("r", r); put("t", jt(t));
		H[r].kdat = make_shared<kz::KeyDataString>(t);
	} else if (op == "qk_qd") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto d = need(h, &Obj::kdat); H[r].kk = make_shared<kz::Key>(d);
	} else if (op == "qd_low" || op == "qd_high") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto b = op == "qd_low" ? need(h, &Obj::kdat)->low() : need(h, &Obj::kdat)->high();
		if (!b) throw logic_error("no block");
		H[r].kb = b;
	// --- Kuznyechik streams
	} else if (op == "t_mem") {
		const long r = a.num(); const auto b = a.hex(); puti("r", r); put("d", jb(b));
		vector<uint64_t> w;
		for (size_t i = 0; i + 8 <= b.size(); i += 8) w.push_back(u64(b, i));
		w.shrink_to_fit();
		H[r].st = make_shared<kz::StMemory>(w);
	} else if (op == "t_env") {
		const long r = a.num(); const long n = a.num(); puti("r", r);
		auto d = make_shared<KBlocks>(); string s = "[", z = "[";
		for (long i = 0; i < n; i++) {
			const auto b = a.hex(); const size_t k = a.num();
			d->push_back({b, k}); s += (i ? "," : "") + jb(b); z += (i ? "," : "") + to_string(k);
		}
		put("bs", s + "]"); put("ns", z + "]");
		H[r].st = make_shared<EnvStream>(d);
	} else if (op == "t_ctr") {
		const long r = a.num(); const long h = a.num(); const long k = a.num(); const auto iv = a.hex();
		puti("r", r); puti("h", h); puti("k", k); put("iv", jb(iv));
		const auto s = need(h, &Obj::st); const auto key = need(k, &Obj::kk);
		H[r].st = make_shared<kz::StCTREncrypted>(s, key, u64(iv));
	} else if (op == "t_mac") {
		const long h = a.num(); const long k = a.num(); puti("h", h); puti("k", k);
		const auto s = need(h, &Obj::st); const auto key = need(k, &Obj::kk);
		put("out", jb(le(kz::Imit(s, key).value())));
	} else if (op == "qb_mac") {
		const long r = a.num(); const long h = a.num(); const long k = a.num(); puti("r", r); puti("h", h); puti("k", k);
		const auto s = need(h, &Obj::st); const auto key = need(k, &Obj::kk);
		H[r].kb = make_shared<kz::Imit>(s, key);
	} else if (op == "i_iter") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto i = need(h, &Obj::st)->iter();
		put("nul", i ? "false" : "true");
		H[r].it = i;
	} else if (op == "i_next") {
		const long r = a.num(); const long h = a.num(); puti("r", r); puti("h", h);
		const auto i = need(h, &Obj::it)->next();
		put("nul", i ? "false" : "true");
		H[r].it = i;
	} else if (op == "i_walk") {             // next, n times
		const long r = a.num(); const long h = a.num(); const long n = a.num(); puti("r", r); puti("h", h); puti("n", n);
		auto i = need(h, &Obj::it);
		for (long j = 0; j < n && i; j++) i = i->next();
		put("nul", i ? "false" : "true");
		H[r].it = i;
	} else if (op == "i_val") {
		const long h = a.num(); puti("h", h);
		put("out", jb(le(need(h, &Obj::it)->value())));
	} else if (op == "i_last") {
		const long h = a.num(); puti("h", h);
		put("b", need(h, &Obj::it)->last() ? "true" : "false");
	} else if (op == "i_size") {
		const long h = a.num(); puti("h", h);
		puti("n", long(need(h, &Obj::it)->size()));
	} else {
		cerr << "script: unknown op " << op << "\n";
		_Exit(3);
	}
}

// one call and its record
static string record(const string &op, Line &a)
{
	ostringstream e;
	ev = &e;
	faulted = false;
	writes.clear();
	ucalls.clear();
	e << "{\"op\":\"" << op << "\"";
	string x;
	try {
		errno = ERANGE;      // what an unrelated call may have left there
		exec(op, a);
	} catch (const Skip &k) {
		x = "skip";
		puti("miss", k.h);
	} catch (const FaultMark &) {
		x = "fault";
	} catch (const exception &) {
		x = "exc";
	} catch (...) {
		x = "other";
	}
	put("x", "\"" + x + "\"");
	put("flt", faulted ? "true" : "false");
	if (op == "s_write" || op == "s_fin" || op == "s_many") {
		string w = "[";
		for (size_t i = 0; i < writes.size(); i++)
			w += string(i ? "," : "") + "{\"f\":" + to_string(writes[i].from) + ",\"t\":" +
				to_string(writes[i].to) + ",\"d\":" + jb(writes[i].d) + "}";
		put("w", w + "]");
	}
	if (!ucalls.empty()) {
		string w = "[";
		for (size_t i = 0; i < ucalls.size(); i++)
			w += string(i ? "," : "") + "{\"h\":" + to_string(ucalls[i].h) + ",\"i\":" + to_string(ucalls[i].idx) +
				",\"ok\":" + (ucalls[i].ok ? "true" : "false") + ",\"v\":" + ucalls[i].val + "}";
		put("u", w + "]");
	} else {
		put("u", "[]");
	}
	e << "}";
	return e.str();
}

// ---------------------------------------------------------------- several threads
// par gated N[,N...]   the calls of caller-supplied objects with these ordinals within an operation wait
//                      for the schedule; one record holds the whole block, with the order of calls and returns
// par free             no control and no synchronisation; the records follow, those with fetches first
// T n OP...            an operation of thread n (1..)
// sched TOKENS         sN: thread N makes its next call, gN: it goes on from the gate, fN: its object fails
// endpar
namespace par_ {
enum State { IDLE, RUN, GATE };
struct Th {
	vector<string> ops;
	size_t started = 0, done = 0;
	State st = IDLE;
	int answer = 0;              // 1 go on, 2 fail
	long ordinal = 0;            // environment calls in this operation
	vector<string> recs;
	vector<bool> fetched;
	map<long, Obj> objs;
};
static mutex m;
static condition_variable cv;
static vector<unique_ptr<Th>> *ths;
static set<long> gated;
static bool open_gates = false;
static vector<int> order;
static thread_local int me = 0;
static bool control = false;
static atomic<size_t> ready{0};
}
static void gate()
{
	using namespace par_;
	if (!me) return;
	if (!control) {
		for (int i = 0; i < 50; i++) sched_yield();
		return;
	}
	auto &t = *(*ths)[me - 1];
	if (!gated.count(++t.ordinal)) return;
	unique_lock<mutex> l(m);
	if (open_gates) return;
	t.st = GATE;
	t.answer = 0;
	cv.notify_all();
	cv.wait(l, [&t]() { return t.answer || open_gates; });
	t.st = RUN;
	if (t.answer == 2) {
		faulted = true;
		fail();
	}
}
static void worker(int n)
{
	using namespace par_;
	me = n;
	auto &t = *(*ths)[n - 1];
	mine = &t.objs;
	ready.fetch_add(1, memory_order_relaxed);        // no more synchronisation than that
	while (ready.load(memory_order_relaxed) < ths->size()) sched_yield();
	for (size_t i = 0; i < t.ops.size(); i++) {
		if (control) {
			unique_lock<mutex> l(m);
			cv.wait(l, [&t, i]() { return t.started > i; });
			t.ordinal = 0;
			order.push_back(n);
		}
		Line a(t.ops[i]);
		const auto op = a.tok();
		auto r = record(op, a);
		// of a cache the main thread made
		t.fetched.push_back(!ucalls.empty() && (op == "kd_use" || op == "b_val" || op == "qb_val")
			&& stol(t.ops[i].substr(t.ops[i].find(' '))) < 1000);
		t.recs.push_back(move(r));
		if (control) {
			unique_lock<mutex> l(m);
			t.st = IDLE;
			t.done = i + 1;
			order.push_back(n);
			cv.notify_all();
		}
	}
}
static void par(Line &a, istream &in, FILE *out)
{
	using namespace par_;
	vector<unique_ptr<Th>> all;
	vector<string> sched;
	control = a.tok() == "gated";
	gated.clear();
	order.clear();
	open_gates = false;
	if (control) {
		istringstream ns(a.tok());
		string x;
		while (getline(ns, x, ',')) gated.insert(stol(x));
	}
	string l;
	while (getline(in, l) && l != "endpar") {
		istringstream is(l);
		string k;
		is >> k;
		if (k == "T") {
			size_t n;
			is >> n >> ws;
			string rest;
			getline(is, rest);
			while (all.size() < n) all.push_back(make_unique<Th>());
			all[n - 1]->ops.push_back(rest);
		} else {
			string t;
			while (is >> t) sched.push_back(t);
		}
	}
	ths = &all;
	ready = 0;
	parallel = true;
	vector<thread> ts;
	for (size_t n = 1; n <= all.size(); n++) ts.emplace_back(worker, n);
	const auto stuck = [out]() {
		fprintf(out, "{\"op\":\"stuck\",\"x\":\"other\",\"flt\":false,\"u\":[]}\n");
		fflush(out);
		_Exit(5);
	};
	if (control) {
		unique_lock<mutex> lk(m);
		const auto settled = [&all]() {
			for (auto &t : all) if (t->st == RUN) return false;
			return true;
		};
		const auto settle = [&]() { cv.wait_for(lk, chrono::milliseconds(4), settled); };
		for (auto &s : sched) {
			auto &t = *all.at(stoul(s.substr(1)) - 1);
			if (s[0] == 's') {
				if (t.st != IDLE || t.started >= t.ops.size()) continue;
				t.started++;
				t.st = RUN;
			} else {
				if (t.st != GATE || t.answer) continue;
				t.answer = s[0] == 'g' ? 1 : 2;
				t.st = RUN;
			}
			cv.notify_all();
			settle();
		}
		open_gates = true;
		for (auto &t : all) t->started = t->ops.size();
		cv.notify_all();
		if (!cv.wait_for(lk, chrono::seconds(20), [&all]() {
			for (auto &t : all) if (t->done < t->ops.size()) return false;
			return true;
		})) stuck();
	}
	for (auto &t : ts) t.join();
	parallel = control = false;
	if (!order.empty()) {
		string e = "{\"op\":\"par\",\"ts\":[";
		for (size_t n = 0; n < all.size(); n++) {
			e += n ? ",[" : "[";
			for (size_t i = 0; i < all[n]->recs.size(); i++) e += (i ? "," : "") + all[n]->recs[i];
			e += "]";
		}
		e += "],\"ord\":[";
		for (size_t i = 0; i < order.size(); i++) e += (i ? "," : "") + to_string(order[i]);
		fprintf(out, "%s]}\n", e.c_str());
	} else {
		for (int f = 1; f >= 0; f--)
			for (auto &t : all)
				for (size_t i = 0; i < t->recs.size(); i++)
					if (t->fetched[i] == bool(f)) fprintf(out, "%s\n", t->recs[i].c_str());
	}
	fflush(out);
}

// again N OP... ; OP... ; ...   these calls, N times over (or for three seconds), as one block of one thread.  What the third and further rounds
// record is given only where it is not what the round before recorded (no action tells a second equal record from a third).
static string again(Line &a)
{
	const long n = a.num();
	vector<string> ops(1), last, all;
	while (a.more()) {
		const auto t = a.tok();
		if (t == ";") ops.emplace_back();
		else ops.back() += (ops.back().empty() ? "" : " ") + t;
	}
	bool once = false;
	static auto left = chrono::duration<double>(15);                      // of all of them: slow is not wrong
	const auto start = chrono::steady_clock::now();
	const auto past = [&start]() { return chrono::duration<double>(chrono::steady_clock::now() - start); };
	const auto most = min(left, chrono::duration<double>(3));
	for (long i = 0; i < n && all.size() < 2000; i++) {
		if (i > 2 && past() > most) break;
		vector<string> now;
		for (const auto &o : ops) {
			Line l(o);
			const auto op = l.tok();
			now.push_back(record(op, l));
		}
		if (now != last) once = false;
		else if (once) continue;
		else once = true;
		all.insert(all.end(), now.begin(), now.end());
		last = move(now);
	}
	left -= past();
	string e = "{\"op\":\"par\",\"ts\":[[", o;
	for (size_t i = 0; i < all.size(); i++) {
		e += (i ? "," : "") + all[i];
		o += i ? ",1,1" : "1,1";
	}
	return e + "]],\"ord\":[" + o + "]}";
}

int main(int argc, char **argv)
{
	if (argc != 3) { cerr << "usage: drv SCRIPT TRACE\n"; return 3; }
	ifstream in(argv[1]);
	FILE *out = fopen(argv[2], "w");
	if (!in || !out) { cerr << "cannot open files\n"; return 3; }
	string l;
	while (getline(in, l)) {
		if (l.empty()) continue;
		Line a(l);
		const auto op = a.tok();
		if (op == "S") {                 // new scenario: all handles go
			H.clear();
			fuse = kind = 0;
			next_node = 1;
			fprintf(out, "S %s\n", a.tok().c_str());
			fflush(out);
			continue;
		}
		if (op == "par") {
			par(a, in, out);
			continue;
		}
		const auto e = op == "again" ? again(a) : record(op, a);
		fprintf(out, "%s\n", e.c_str());
		fflush(out);
	}
	H.clear();
	fprintf(out, "END\n");
	fclose(out);
	return 0;
}
