// C04: failing reads of input streams surface as exception; nothing before them is lost or changed.
#include "sessions.hpp"
#include "reader.hpp"
#include "textwolf.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <istream>
#include <streambuf>
#include <map>
namespace sim {

// plan: S .. K .. (delivery), F style offset errno use buflog; document records or T/O records (reader)
enum {ST_ISTREAM,ST_ISTREAM_PARTIAL,ST_STD_THROW,ST_STD_THROW_IOS,ST_NOF};
static const int g_errnos[] = {EIO,EBADF,EISDIR,EINTR,ENOMEM,ECONNRESET,ETIMEDOUT,ENOSPC,0};
enum {NofErrnos=sizeof(g_errnos)/sizeof(g_errnos[0])};

struct FaultPlan { int style; size_t offset; int err; int use; bool persistent; bool fault; };

static Plan generate( Rng& rng)
{
	Plan p;
	if (rng.chance( 7))
	{
		// history of reads of a wrapped stream with several passing failures
		i64 size = (i64)rng.below( 60);
		Rec w( "W", {size});
		for (int k=(int)rng.range( 0, 5); k>0; --k) { w.n.push_back( (i64)rng.below( (u64)size+1)); w.n.push_back( (i64)rng.below( NofErrnos)); }
		p.push_back( w);
		for (int k=(int)rng.range( 1, 16); k>0; --k) p.push_back( Rec( "R", {rng.chance( 65) ? 0 : (i64)rng.range( 1, 3), rng.chance( 70) ? (i64)rng.below( 9) : (i64)rng.below( 80), (i64)rng.below( 4)}));
		return p;
	}
	int ns = rng.chance( 75) ? 1 : 2;
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		DocModel m;
		bool reader = rng.chance( 20);
		if (reader)
		{
			ustr t;
			int len = (int)rng.range( 0, 24);
			for (int i=0; i<len; ++i) t.push_back( rng.chance( 30) ? (char32_t)rng.range( 1, 127) : genChar( rng, enc, 50));
			doc.push_back( Rec( "T", {}, {t}));
			Rec o( "O");
			int no = (int)rng.range( 1, 8);
			for (int i=0; i<no; ++i) o.n.push_back( (i64)rng.below( 5));
			doc.push_back( o);
			for (char32_t c : t) { m.hot.push_back( m.bytes.size()); encodeOut( enc, c, m.bytes); }
		}
		else
		{
			GenOpts o; o.bigPermille = 4;
			o.maxNodes = rng.chance( 70) ? 6 : 16;
			genDoc( rng, enc, o, doc);
			if (rng.chance( 15)) genDamage( rng, doc, enc, 1);
			renderDoc( doc, 0, doc.size(), enc, 0, m);
		}
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, SRC_STREAM, 0);
		i64 ofs = m.hot.size() && rng.chance( 50) ? (i64)m.hot[ rng.below( m.hot.size())] + rng.range( -1, 1) : (i64)rng.below( m.bytes.size()+1);
		if (rng.chance( 10)) ofs = (i64)m.bytes.size();
		if (rng.chance( 5)) ofs = 0;
		if (ofs < 0) ofs = 0;
		p.push_back( Rec( "F", {(i64)rng.below( ST_NOF), ofs, (i64)rng.below( NofErrnos), (i64)rng.below( 64), rng.chance( 50), rng.chance( 92)}));
		p.insert( p.end(), doc.begin(), doc.end());
	}
	return p;
}

// stream under test with short reads and one (or a persistent) failure
class FaultStream :public textwolf::IStream
{
public:
	FaultStream( const std::string& d, const std::vector<size_t>& cuts_, const FaultPlan& f_) :data(d),cuts(cuts_),f(f_),pos(0),delivered(0),ci(0),err(0),failed(false),calls(0),poisoned(false){}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		MemPause mp;
		err = 0;
		++calls;
		size_t end = data.size();
		while (ci < cuts.size() && cuts[ci] <= pos) ++ci;
		if (ci < cuts.size() && cuts[ci] < end) end = cuts[ci];
		if (f.fault && (!failed || f.persistent))
		{
			if (pos >= f.offset)
			{
				err = f.err?f.err:EIO;
				size_t k = 0;
				if (f.style == ST_ISTREAM_PARTIAL && !failed)
				{
					// some bytes have already been written when the error shows up
					k = std::min( n, data.size() - pos);
					std::memcpy( buf, data.data()+pos, k);
					pos += k;
					FAULT( "failed_read_with_data");
				}
				else { FAULT( "failed_read"); if (failed) FAULT( "failed_again"); }
				failed = true;
				ev( "readfail", pos, err);
				return k;
			}
			if (f.offset < end) end = f.offset;
		}
		size_t k = std::min( n, end - pos);
		if (k < n && pos + k < data.size()) FAULT( "short_read");
		std::memcpy( buf, data.data()+pos, k);
		pos += k;
		if (!failed) delivered = pos;
		ev( "read", n, k);
		return k;
	}
	virtual int errorcode() const { return err; }
	std::string data; std::vector<size_t> cuts; FaultPlan f;
	size_t pos, delivered, ci; int err; bool failed; u64 calls; bool poisoned;
};

// buffer of a std::istream: delivers in pieces and fails at the offset chosen
class FaultBuf :public std::streambuf
{
public:
	FaultBuf( const std::string& d, const std::vector<size_t>& cuts_, const FaultPlan& f_) :data(d),cuts(cuts_),f(f_),pos(0),ci(0),failed(false){}
	virtual int_type underflow()
	{
		MemPause mp;
		size_t end = data.size();
		while (ci < cuts.size() && cuts[ci] <= pos) ++ci;
		if (ci < cuts.size() && cuts[ci] < end) end = cuts[ci];
		if (f.fault && (!failed || f.persistent))
		{
			if (pos >= f.offset)
			{
				failed = true;
				FAULT( "failing_streambuf");
				ev( "buffail", pos, f.err);
				errno = f.err;
				mem::resume( mp.p);
				if (f.style == ST_STD_THROW_IOS) throw std::ios_base::failure( "read failed");
				throw 4711;
			}
			if (f.offset < end) end = f.offset;
		}
		if (pos >= end) return traits_type::eof();
		setg( &data[pos], &data[pos], &data[0]+end);
		pos = end;
		return traits_type::to_int_type( *gptr());
	}
	std::string data; std::vector<size_t> cuts; FaultPlan f; size_t pos, ci; bool failed;
};
// records what the wrapped stream delivered
class LogStream :public textwolf::IStream
{
public:
	explicit LogStream( std::istream& s) :st(s),delivered(0),failed(false),lasterr(0){}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		size_t k = st.read( buf, n);
		lasterr = st.errorcode();
		if (lasterr) failed = true;
		else if (!failed) delivered += k;
		if (k > n) { MemPause mp; fail( "read-overflow", fmt( "StdInputStream::read returned %u for a buffer of %u bytes", (unsigned)k, (unsigned)n)); }
		return k;
	}
	virtual int errorcode() const { return st.errorcode(); }
	textwolf::StdInputStream st; size_t delivered; bool failed; int lasterr;
};

struct Run
{
	const SessionSpec& spec;
	FaultPlan f;
	bool reader;
	std::string bytes; DocModel model; bool damaged;
	ustr text; std::vector<size_t> ofs; std::vector<i64> ops;
	std::unique_ptr<FaultStream> fs;
	std::unique_ptr<FaultBuf> fb; std::unique_ptr<std::istream> is; std::unique_ptr<LogStream> ls;
	std::unique_ptr<ScannerBox> sc;
	std::unique_ptr<ReaderBox> rd;
	bool finished; bool thrown, opened;
	std::vector<Item> items; ustr chars; size_t opi; bool regularEnd;

	Run( const SessionSpec& s, const Plan& p) :spec(s),reader(false),damaged(false),finished(false),thrown(false),opened(false),opi(0),regularEnd(false)
	{
		f.style = 0; f.offset = 0; f.err = 0; f.use = 0; f.persistent = false; f.fault = false;
		for (size_t i=s.recB; i<s.recE; ++i)
		{
			const Rec& r = p[i];
			if (r.tag == "F") { f.style = (int)r.numc( 0, 0, ST_NOF-1); f.offset = (size_t)r.numc( 1, 0, 1<<20); f.err = g_errnos[ r.numc( 2, 0, NofErrnos-1)]; f.use = (int)r.numc( 3, 0, 63); f.persistent = r.num( 4) != 0; f.fault = r.num( 5, 1) != 0; }
			if (r.tag == "T") { reader = true; for (char32_t c : r.str( 0)) if (c && c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000) && representable( s.encIn, c)) { text.push_back( c); ofs.push_back( bytes.size()); encodeOut( s.encIn, c, bytes); } ofs.push_back( bytes.size()); }
			if (r.tag == "O") ops = r.n;
			if (r.tag == "X") damaged = true;
		}
		if (reader && ofs.empty()) ofs.push_back( 0);
		if (!reader)
		{
			renderDoc( p, s.recB, s.recE, s.encIn, 0, model);
			bytes = damageBytes( p, s.recB, s.recE, model.bytes);
		}
		evs( "bytes", bytes);
		if (f.style >= ST_STD_THROW)
		{
			fb.reset( new FaultBuf( bytes, s.dl.cuts, f)); is.reset( new std::istream( fb.get())); ls.reset( new LogStream( *is));
		}
		else fs.reset( new FaultStream( bytes, s.dl.cuts, f));
	}
	~Run() {}
	size_t delivered() const { return fs ? fs->delivered : ls->delivered; }
	bool failed() const { return fs ? fs->failed : ls->failed; }
	std::string describe() const { return fmt( "%s fault=%d style=%d offset=%u err=%d bufsize=%u delivered=%u; text=\"%s\"", encName( spec.encIn), (int)f.fault, f.style, (unsigned)f.offset, f.err, (unsigned)spec.dl.bufsize, (unsigned)delivered(), printable( bytes.substr( 0, 300)).c_str()); }

	void warmup()
	{
		SimStream st( encodeStr( spec.encIn, asciiU( "<?xml version='1.0'?><a b='c'>&lt;&#32;</a>")), std::vector<size_t>());
		ScanSource s; s.kind = SRC_STREAM; s.stream = &st; s.bufsize = 1000;
		std::unique_ptr<ScannerBox> x( makeScanner( csOf( spec.encIn), spec.csOut, s));
		while (x->next( 0xFFFF) < I_Exit && x->next( 0) != I_Exit) {}
	}
	bool one()
	{
		if (!opened)
		{
			ScanSource s;
			s.kind = SRC_STREAM;
			s.page = spec.encIn >= E_ISO1 ? pageOf( spec.encIn) : 0;
			s.useIterator = spec.dl.useIterator;
			s.stream = fs ? (textwolf::IStream*)fs.get() : (textwolf::IStream*)ls.get();
			s.bufsize = spec.dl.bufsize;
			if (reader) rd.reset( makeReader( csOf( spec.encIn), s));
			else sc.reset( makeScanner( csOf( spec.encIn), spec.csOut, s));
			opened = true;
			return true;
		}
		if (reader)
		{
			char32_t c = 0; int x; std::string out;
			int op = ops.empty() ? 0 : (int)(((u64)ops[ opi % ops.size()]) % 5);
			if (opi++ % 3 == 2) op = 0;
			switch (op)
			{
				case 1: rd->control( x); return true;
				case 2: rd->ascii( x); return true;
				case 3: if (chars.size() < text.size()) rd->copychar( spec.encIn >= E_ISO1 ? pageOf( spec.encIn) : 0, out); return true;
				default: break;
			}
			rd->chr( c);
			if (c == 0) { regularEnd = true; return false; }
			{ MemPause mp; chars.push_back( c); }
			rd->skip();
			return true;
		}
		int t = sc->next( 0xFFFF);
		MemPause mp;
		Item it;
		readItem( *sc, t, 0xFFFF, it, spec.dl.useIterator);
		items.push_back( it);
		ev( "item", (u64)t, it.data.size()); evs( "data", it.data);
		if (t == I_Exit) regularEnd = true;
		if (items.size() > bytes.size()*2+64) fail( "too-many-items", describe());
		return !(t == I_Exit || t == I_Error);
	}
	void step()
	{
		if (finished) return;
		bool go = true;
		const char* problem = 0; char what[ 64]; int cause = -1;
		g_what = "stream operation";
		mem::resume( true);
		try { go = one(); }
		catch (const textwolf::exception& e) { thrown = true; cause = (int)e.cause; std::snprintf( what, sizeof(what), "%s", e.what()); }
		catch (const Fail&) { mem::pause(); throw; }
		catch (const std::exception& e) { problem = "std::exception"; }
		catch (...) { problem = "exception of another type"; }
		mem::pause();
		if (problem) fail( "exception-type", std::string(problem) + " instead of a textwolf::exception; " + describe());
		if (thrown)
		{
			ev( "thrown", cause);
			if (!failed()) fail( "exception-without-failure", std::string("exception ") + what + " thrown although no read failed; " + describe());
			if (cause != (int)textwolf::throws_exception::FileReadError || std::strcmp( what, "FileReadError") != 0)
				fail( "exception-cause", fmt( "cause %d '%s'; ", cause, what) + describe());
			int ec = fs ? fs->errorcode() : ls->errorcode();
			int exp = f.err ? f.err : EIO;
			if (ec != exp) fail( "exception-errno", fmt( "error code %d, expected %d; ", ec, exp) + describe());
			finished = true;
			afterwards();
		}
		else
		{
			if (failed()) fail( "failure-ignored", fmt( "a read failed, but the call returned%s; ", regularEnd ? " with the regular end of data" : "") + describe());
			if (!go) finished = true;
		}
	}
	// whatever is done with the objects after the failure touches only valid memory
	void afterwards()
	{
		mem::resume( true);
		for (int i=0; i<6; ++i) if (f.use & (1<<i)) try
		{
			if (i == 5) { rd.reset(); sc.reset(); break; }
			if (reader && rd)
			{
				char32_t c; int x; std::string out;
				switch (i) { case 0: rd->chr( c); break; case 1: rd->skip(); break; case 2: rd->control( x); break; case 3: { std::unique_ptr<ReaderBox> cl( rd->clone()); cl->skip(); cl->assign( *rd); rd->assign( *cl); rd->assign( *rd); } break; case 4: rd->copychar( 0, out); rd->pos(); break; }
			}
			else if (sc)
			{
				switch (i)
				{
					case 0: sc->next( 0xFFFF); break;
					case 1: sc->next( 0); sc->next( 0xFFFF); break;
					case 2: { volatile unsigned sum = 0; const char* q = sc->ptr(); size_t n = q?sc->size():0; for (size_t k=0; k<n; ++k) sum = sum + (unsigned char)q[k]; break; }
					case 3: { std::unique_ptr<ScannerBox> cl( sc->clone()); cl->next( 0xFFFF); } break;
					case 4: for (int k=0; k<20; ++k) sc->next( 0xFFFF); sc->pos(); sc->tokenPos(); break;
				}
			}
			PROBE( "used_after_the_failure");
		}
		catch (const textwolf::exception&) { PROBE( "failed_again_after_the_failure"); }
		mem::pause();
	}
	void verify()
	{
		if (f.fault && thrown) nontrivial();
		if (reader)
		{
			for (size_t i=0; i<chars.size(); ++i) if (i >= text.size() || chars[i] != text[i]) fail( "characters", fmt( "character %u is U+%X; ", (unsigned)i, (unsigned)chars[i]) + describe());
			size_t lo = 0, d = thrown ? delivered() : bytes.size()+1;
			while (lo < text.size() && ofs[lo+1] < d) ++lo;
			if (chars.size() < lo) fail( "characters-lost", fmt( "%u characters, expected at least %u; ", (unsigned)chars.size(), (unsigned)lo) + describe());
			if (regularEnd && chars.size() != text.size()) fail( "early-end", fmt( "%u of %u characters; ", (unsigned)chars.size(), (unsigned)text.size()) + describe());
			return;
		}
		std::vector<Item> lo, hi;
		if (thrown)
		{
			size_t d = delivered();
			prefix( bytes.substr( 0, d), hi, false);
			prefix( bytes.substr( 0, d?d-1:0), lo, false);
		}
		else { prefix( bytes, hi, true); lo = hi; }
		for (size_t i=0; i<items.size(); ++i)
		{
			if (i >= hi.size() || !sameItem( items[i], hi[i])) fail( "items-differ", fmt( "item %u %s, expected %s; ", (unsigned)i, itemStr( items[i]).c_str(), i < hi.size() ? itemStr( hi[i]).c_str() : "(none)") + describe());
			if (!damaged)
			{
				if (i < model.items.size() ? (items[i].type != model.items[i].type || items[i].data != encodeStr( spec.encOut, model.items[i].text)) : items[i].type != I_Exit)
					fail( "items-differ", fmt( "item %u %s is not the one of the document; ", (unsigned)i, itemStr( items[i]).c_str()) + describe());
			}
		}
		if (items.size() < lo.size() && !(items.size() && items.back().type == I_Error)) fail( "items-lost", fmt( "%u items before the failure, expected at least %u, next is %s; ", (unsigned)items.size(), (unsigned)lo.size(), itemStr( lo[items.size()]).c_str()) + describe());
		if (thrown && !items.empty() && items.size() < model.items.size()) PROBE( "failed_in_the_middle");
	}
	void prefix( const std::string& b, std::vector<Item>& out, bool last)
	{
		ScanSource s; s.kind = SRC_CHUNK;
		s.page = spec.encIn >= E_ISO1 ? pageOf( spec.encIn) : 0;
		std::unique_ptr<ScannerBox> x( makeScanner( csOf( spec.encIn), spec.csOut, s));
		std::unique_ptr<char[]> c( new char[ b.size()+1]); std::memcpy( c.get(), b.data(), b.size());
		x->feed( c.get(), b.size(), last);
		for (;;)
		{
			int t = x->next( 0xFFFF);
			if (t == SUSPENDED) break;
			Item it; readItem( *x, t, 0xFFFF, it, false);
			out.push_back( it);
			if (t == I_Exit || t == I_Error) break;
		}
	}
};

// what a wrapped stream reports is about the read that was done, also after it failed and was repaired by the caller
class HistBuf :public std::streambuf
{
public:
	HistBuf( const std::string& d, const std::map<size_t,std::vector<int> >& f) :data(d),fails(f),pos(0){}
	virtual int_type underflow()
	{
		MemPause mp;
		auto fi = fails.find( pos);
		if (fi != fails.end())
		{
			int e = fi->second.back();
			fi->second.pop_back();
			if (fi->second.empty()) fails.erase( fi);
			FAULT( "passing_failure");
			errno = e;
			mem::resume( mp.p);
			throw 4711;
		}
		if (pos >= data.size()) return traits_type::eof();
		auto ni = fails.upper_bound( pos);
		size_t end = ni == fails.end() ? data.size() : std::min( ni->first, data.size());
		setg( &data[pos], &data[pos], &data[0]+end);
		pos = end;
		return traits_type::to_int_type( *gptr());
	}
	std::string data; std::map<size_t,std::vector<int> > fails; size_t pos;
};

static void executeHistory( const Plan& p)
{
	std::string data; std::map<size_t,std::vector<int> > fails;
	for (auto& r : p) if (r.tag == "W")
	{
		size_t n = (size_t)r.numc( 0, 0, 1000);
		data.clear(); fails.clear();
		for (size_t i=0; i<n; ++i) data.push_back( (char)(unsigned char)(1 + i*7 % 255));
		for (size_t i=1; i+1<r.n.size(); i+=2) fails[ (size_t)r.numc( i, 0, (i64)n)].push_back( g_errnos[ r.numc( i+1, 0, NofErrnos-1)]);
	}
	std::map<size_t,std::vector<int> > todo( fails);
	std::vector<char> buf( 2000);
	HistBuf sb( data, fails);
	std::istream is( &sb);
	mem::arm( 0, 0, true); mem::pause();
	{
		std::vector<std::unique_ptr<textwolf::StdInputStream> > st( 4);
		std::vector<int> code( 4, 0);
		mem::resume( true); st[0].reset( new textwolf::StdInputStream( is)); mem::pause();
		size_t pos = 0; bool bad = false, eof = false;
		std::string log;
		for (auto& r : p) if (r.tag == "R")
		{
			int op = (int)r.numc( 0, 0, 3);
			size_t n = (size_t)r.numc( 1, 0, 1000), k = (size_t)r.numc( 2, 0, 3);
			if (!st[k]) k = 0;
			log += fmt( " %d(%u,%u)", op, (unsigned)n, (unsigned)k);
			ev( "histop", (u64)op, n);
			switch (op)
			{
				case 0:
				{
					size_t expn = 0; int expc = 0;
					if (bad) expc = -1;	// some error, the stream was not repaired
					else if (eof) {}
					else if (n)
					{
						auto fi = todo.lower_bound( pos);
						if (fi != todo.end() && fi->first < pos+n)
						{
							expc = fi->second.back() ? fi->second.back() : EIO;
							fi->second.pop_back();
							pos = fi->first;
							if (fi->second.empty()) todo.erase( fi);
							bad = true;
						}
						else if (pos + n > data.size()) { expn = data.size() - pos; eof = true; }
						else expn = n;
					}
					std::memset( buf.data(), 0, buf.size());
					std::string ex;
					size_t got = 0;
					mem::resume( true);
					try { got = st[k]->read( buf.data(), n); } catch (const std::exception& x) { mem::pause(); ex = x.what(); mem::resume( true); } catch (...) { mem::pause(); ex = "exception of another type"; mem::resume( true); }
					mem::pause();
					int rc = st[k]->errorcode();
					ev( "histread", got, (u64)rc);
					code[k] = rc;
					if (!ex.empty()) fail( "exception-type", "StdInputStream::read throws " + ex + "; reads:" + log);
					if (expc == -1 ? rc == 0 : rc != expc) fail( "stream-error-code", fmt( "error code %d, expected %s%d; reads:", rc, expc == -1 ? "not " : "", expc == -1 ? 0 : expc) + log);
					if (got != expn) fail( "stream-count", fmt( "%u bytes, expected %u; reads:", (unsigned)got, (unsigned)expn) + log);
					if (std::memcmp( buf.data(), data.data()+pos, got) != 0) fail( "stream-data", "other bytes than those of the device; reads:" + log);
					pos += got;
					if (expc > 0) nontrivial();
					break;
				}
				case 1:
					if (bad) PROBE( "repaired_stream");
					is.clear(); bad = false; eof = false;
					if (pos >= data.size() && todo.empty()) eof = false;
					break;
				case 2:
				{
					size_t t = n % 4;
					if (t == k) break;
					mem::resume( true); st[t].reset( new textwolf::StdInputStream( *st[k])); mem::pause();
					code[t] = code[k];
					PROBE( "copied_stream");
					break;
				}
				case 3: break;
			}
			for (size_t q=0; q<4; ++q) if (st[q] && st[q]->errorcode() != code[q]) fail( "stream-error-code", fmt( "error code of stream object %u changed to %d without a read; reads:", (unsigned)q, st[q]->errorcode()) + log);
		}
	}
	u64 l = mem::live();
	std::string info = l ? mem::liveInfo() : std::string();
	mem::disarm();
	if (l) fail( "leak", fmt( "%u memory blocks not released: %s; ", (unsigned)l, info.c_str()));
}

static void execute( const Plan& p)
{
	for (auto& r : p) if (r.tag == "W") { executeHistory( p); return; }
	std::vector<SessionSpec> specs = parseSessions( p);
	for (auto& s : specs) { s.dl.kind = SRC_STREAM; if (s.csOut != csOf( s.encIn)) s.csOut = s.encOut = 0; s.ents.ent.clear(); if (s.dl.useIterator) s.dl.masks.clear(); }
	std::vector<std::unique_ptr<Run> > rs;
	for (auto& s : specs) rs.push_back( std::unique_ptr<Run>( new Run( s, p)));
	// static tables of the templates used are allocated before
	for (auto& r : rs) r->warmup();
	mem::arm( 0, 0, true); mem::pause();
	Rng rng( specs.empty() ? 1 : specs[0].dl.arrival);
	for (;;)
	{
		std::vector<Run*> ready;
		for (auto& r : rs) if (!r->finished) ready.push_back( r.get());
		if (ready.empty()) break;
		ready[ rng.below( ready.size())]->step();
		simTime( 1 + rng.below( 100));
	}
	for (auto& r : rs) r->verify();
	mem::resume( true);
	for (auto& r : rs) { r->sc.reset(); r->rd.reset(); }
	mem::pause();
	u64 l = mem::live();
	std::string info = l ? mem::liveInfo() : std::string();
	mem::disarm();
	if (l) fail( "leak", fmt( "%u memory blocks not released: %s; ", (unsigned)l, info.c_str()) + (rs.empty() ? std::string() : rs[0]->describe()));
}
const Property g_property = {"C04", generate, execute};
}//namespace
