// Path automaton and selection instantiations for one token character set (macro ATM = 0..3)
#include "path.hpp"
#include "textwolf.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmlpathselect.hpp"
#include <memory>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)

namespace sim {
using namespace textwolf;
namespace {
template <int K> struct ACS;
template <> struct ACS<0> {typedef charset::UTF8 T;};
template <> struct ACS<1> {typedef charset::UTF16BE T;};
template <> struct ACS<2> {typedef charset::UCS4LE T;};
template <> struct ACS<3> {typedef charset::IsoLatin T;};
template <int K> struct PCS;
template <> struct PCS<0> {typedef charset::UTF8 T;};
template <> struct PCS<1> {typedef charset::UTF16LE T;};
template <> struct PCS<2> {typedef charset::IsoLatin T;};
template <> struct PCS<3> {typedef charset::UCS4BE T;};

typedef ACS<ATM>::T AtmCS;
typedef XMLPathSelect<AtmCS> Select;

struct SelImpl :public SelBox
{
	Select sel; const XMLPathSelectAutomaton<AtmCS>* atm;
	explicit SelImpl( const XMLPathSelectAutomaton<AtmCS>* a) :sel(a),atm(a){}
	SelImpl( const SelImpl& o) :SelBox(),sel(o.sel),atm(o.atm){}
	virtual void announce( int itemtype, const char* ptr, size_t size, std::vector<int>& all, std::vector<int>& sure, std::vector<int>& content) const
	{
		std::vector<int> st;
		sel.getTokenTypeMatchingStates( (XMLScannerBase::ElementType)itemtype, true, st);
		MemPause mp;
		for (int s : st)
		{
			const XMLPathSelectAutomaton<AtmCS>::State& e = atm->states.at( (size_t)s);
			bool match = !e.key || (e.keysize == size && memcmp( e.key, ptr, size) == 0);
			if (e.core.typeidx)
			{
				all.push_back( e.core.typeidx);
				if (e.core.cnt_end == -1) sure.push_back( e.core.typeidx);
				continue;
			}
			bool bounded = false;
			for (int n = e.next; n >= 0; n = atm->states.at( (size_t)n).link)
			{
				const XMLPathSelectAutomaton<AtmCS>::State& f = atm->states.at( (size_t)n);
				if (!f.core.typeidx) continue;
				if (f.core.mask.empty()) { all.push_back( f.core.typeidx); if (match) sure.push_back( f.core.typeidx); }
				else if (f.core.cnt_end != -1) bounded = true;
			}
			if (itemtype == XMLScannerBase::OpenTag && match && !bounded) atm->getEmmitedTokens( (unsigned int)s, XMLScannerBase::Content, content);
		}
	}
	virtual void push( int itemtype, const char* ptr, size_t size, u64 style, std::vector<int>& out)
	{
		XMLScannerBase::ElementType t = (XMLScannerBase::ElementType)itemtype;
		std::string str;
		if (style & 1) str.assign( ptr, size);
		Select::iterator itr = (style & 1) ? sel.push( t, str) : sel.push( t, ptr, (int)size);
		Select::iterator end = sel.end();
#ifndef CONC
		if (style & 4)
		{
			// a copy goes on from where it was taken
			Select::iterator cp( itr), as; as = cp;
			Select::iterator& use = (style & 8) ? cp : as;
			if (style & 2) while (use != end) { int v = *use++; MemPause mp; out.push_back( v); }
			else for (; use != end; ++use) { MemPause mp; out.push_back( *use); }
			return;
		}
#endif
		if (style & 2)
		{
			while (itr != end) { { MemPause mp; out.push_back( *itr); } itr++; }
		}
		else
		{
			for (; !(itr == end); ++itr) { MemPause mp; out.push_back( *itr.operator->()); }
		}
	}
	virtual SelBox* clone( bool assign) const
	{
		if (!assign) return new SelImpl( *this);
		std::unique_ptr<SelImpl> rt( new SelImpl( dummy()));
		rt->sel = sel; rt->atm = atm;
		return rt.release();
	}
	virtual void assign( const SelBox& o) { sel = static_cast<const SelImpl&>( o).sel; atm = static_cast<const SelImpl&>( o).atm; }
	static const XMLPathSelectAutomaton<AtmCS>* dummy() { static const XMLPathSelectAutomaton<AtmCS> a; return &a; }
};

template <class PSRC>
struct AtmImpl :public AtmBox
{
	typedef XMLPathSelectAutomatonParser<PSRC,AtmCS> Atm;
	typedef typename Atm::PathElement PathElement;
	Atm atm;
	AtmImpl(){}
	AtmImpl( const AtmImpl& o) :AtmBox(),atm(o.atm){}
	virtual void build( const PExpr& e)
	{
		u64 sty = e.style;
		auto dice = [&]( unsigned n) -> unsigned { sty = mix64( sty+1); return (unsigned)(sty % n); };
		Atm& A = atm;
		PathElement pe = *A;
		for (const PStep& s : e.steps)
		{
			if (s.follow) { if (dice( 2)) pe--; else pe.forAllDescendants(); }
			const char* k = s.any ? 0 : s.key.c_str();
			switch (s.kind)
			{
				case P_TAG: if (dice( 2)) pe[ k]; else pe.selectTag( k); break;
				case P_ATTR: if (dice( 2)) pe( k); else pe.selectAttribute( k); break;
				case P_COND: if (dice( 2)) pe( k, s.anyValue ? 0 : s.value.c_str()); else pe.ifAttribute( k, s.anyValue ? 0 : s.value.c_str()); break;
				case P_CLOSE: pe.selectCloseTag(); break;
			}
			if (dice( 3) == 0) { PathElement cp( pe); pe = cp; }
		}
		bool first = dice( 2);
		for (int k=0; k<2; ++k)
		{
			if ((k == 0) == first)
			{
				switch (e.rkind)
				{
					case R_INDEX: pe.INDEX( e.a); break;
					case R_FROM: pe.FROM( e.a); break;
					case R_RANGE: pe.RANGE( e.a, e.b); break;
					case R_TO: pe.TO( e.b); break;
					case R_FROM_TO: pe.FROM( e.a).TO( e.b); break;
					case R_TO_FROM: pe.TO( e.b).FROM( e.a); break;
					case R_RANGES: pe.RANGE( e.a, e.b).RANGE( range2( e.style, e.a, 3), range2( e.style, e.b, 5)); break;
					case R_FROM_INDEX: pe.FROM( range2( e.style, e.a, 3)).INDEX( e.a); break;
					case R_OPEN: pe.RANGE( e.a, -1); break;
				}
			}
			else
			{
				if (e.outFollow) pe.forAllDescendants();
				if (e.out == O_CONTENT) { if (dice( 2)) pe(); else pe.selectContent(); }
			}
		}
		if (dice( 2)) pe = e.type; else pe.assignType( e.type);
	}
	virtual int parse( int type, const char* src, size_t n) { return atm.addExpression( type, src, n); }
	virtual SelBox* newSel() const { return new SelImpl( &atm); }
	virtual AtmBox* clone( bool assign) const
	{
		if (!assign) return new AtmImpl( *this);
		std::unique_ptr<AtmImpl> rt( new AtmImpl());
		rt->atm = atm;
		return rt.release();
	}
	virtual void assign( const AtmBox& o) { atm = static_cast<const AtmImpl&>( o).atm; }
	virtual size_t states() const { return atm.states.size(); }
};
}//anon

AtmBox* CAT(makeAtm_,ATM)( int psrc)
{
	switch (psrc)
	{
		case 1: return new AtmImpl<PCS<1>::T>();
		case 2: return new AtmImpl<PCS<2>::T>();
		case 3: return new AtmImpl<PCS<3>::T>();
	}
	return new AtmImpl<PCS<0>::T>();
}
}//namespace
