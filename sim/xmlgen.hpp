// Document generator and independent reference model: documents are built from records, and the
// expected scanner items (type, text, byte offset, byte offset at which they must be available)
// follow from the construction, not from parsing.
#ifndef SIM_XMLGEN_HPP
#define SIM_XMLGEN_HPP
#include "scan.hpp"

namespace sim {

struct ExpItem
{
	int type;
	ustr text;
	bool hasPos;		// tokpos is specified
	size_t tokpos;		// byte offset of the first byte of the token
	size_t avail;		// number of source bytes after which the item must be available
	ExpItem( int t=0) :type(t),hasPos(false),tokpos(0),avail(0){}
};

struct DocModel
{
	int enc;
	std::string bytes;
	std::vector<ExpItem> items;		// without the final Exit
	std::vector<size_t> hot;		// interesting byte offsets for chunk boundaries
	std::vector<std::pair<size_t,size_t> > spans;	// byte ranges of the markup constructs, from '<' to '>'
};

struct GenOpts
{
	int maxNodes;
	int nonAsciiPct;	// in content
	int nameNonAsciiPct;
	bool header, doctype, comments, pi, cdata;
	int entityPct;		// percentage of characters rendered as entities
	int eolPct;
	std::vector<std::pair<std::string,u64> > userEntities;
	bool balanced;
	int bigPermille;	// documents with long tokens, deep nesting, many elements or attributes
	int bigMax;	// limit of the factors of the big documents
	GenOpts() :maxNodes(12),nonAsciiPct(15),nameNonAsciiPct(3),header(true),doctype(true),comments(true),pi(true),cdata(true),entityPct(10),eolPct(6),balanced(false),bigPermille(0),bigMax(20000){}
};

// Document records (tag, numbers, strings):
//  dh style..          "an" "av" ...   xml header with attributes
//  dd style..          "v" ...         <!v v ...> document attribute definition (style bit: quoted, subset at the end)
//  do style selfclose  "name" "an" "av" ...
//  dc style            "name"
//  dt style            "text"
//  dm                  "comment text"
//  dp                  "processing instruction"
//  dx                  "cdata text"
//  dr count len what                   repeat: the last 'len' records (what 0), the text (1) or the attributes (2) of the last record
bool isDocRec( const Rec& r);
void genDoc( Rng& rng, int enc, const GenOpts& o, Plan& out);
// Render records [b,e) in encoding enc. Robust against any mutation of the records.
void renderDoc( const Plan& p, size_t b, size_t e, int enc, const EntityTab* ents, DocModel& m);
ustr genName( Rng& rng, int enc, int nonAsciiPct, int maxlen=8);
ustr genText( Rng& rng, int enc, const GenOpts& o, int maxlen);
EntityTab genEntities( Rng& rng, int n);

}//namespace
#endif
