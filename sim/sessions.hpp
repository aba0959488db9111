// Producer/consumer sessions under a discrete event scheduler: a session is one document delivered
// to one real scanner; the scheduler decides which session receives its next piece of input or gets
// to pull its next item.
#ifndef SIM_SESSIONS_HPP
#define SIM_SESSIONS_HPP
#include "xmlgen.hpp"
#include "textwolf/istreamiterator.hpp"
#include <memory>

namespace sim {

// How the bytes of a session reach the scanner
struct Delivery
{
	int kind;			// SourceKind
	bool setSource, useIterator;
	int endStyle;			// 0: last chunk is final, 1: empty final chunk, 2: NUL terminator in a non final chunk
	std::vector<size_t> cuts;	// sorted byte offsets
	u64 arrival;			// seed of arrival delays
	int pumpLimit;			// items pulled per activation of the consumer
	int spurious;			// percentage of resumptions without new input
	size_t bufsize;			// stream buffer size
	std::vector<i64> masks;		// item mask schedule (empty: everything)
	std::vector<i64> remasks;	// masks for calls that resume an interrupted item (empty: the same)
	Delivery() :kind(SRC_CHUNK),setSource(false),useIterator(false),endStyle(0),arrival(0),pumpLimit(0),spurious(0),bufsize(64){}
	unsigned short mask( size_t itemIdx) const { return masks.empty() || useIterator ? 0xFFFF : (unsigned short)(masks[ itemIdx % masks.size()] | 0); }
};

// Stream source with scheduled short reads
class SimStream :public textwolf::IStream
{
public:
	SimStream( const std::string& d, const std::vector<size_t>& cuts_) :data(d),cuts(cuts_),pos(0),reads(0),eofs(0),ci(0){}
	virtual std::size_t read( void* buf, std::size_t n);
	virtual int errorcode() const { return 0; }
	std::string data; std::vector<size_t> cuts; size_t pos; u64 reads, eofs; size_t ci;
	std::vector<size_t> posLog;	// position after each read
};

struct SessionSpec
{
	int encIn, csOut, encOut;
	Delivery dl;
	EntityTab ents;
	const EntityTab* shared;	// entities shared with others instead of its own
	i64 capacity;			// size of the item buffer (-1: unbounded)
	size_t recB, recE;		// records of the session
	SessionSpec() :encIn(0),csOut(0),encOut(0),shared(0),capacity(-1),recB(0),recE(0){}
};

struct Session
{
	const SessionSpec& spec;
	std::string bytes;
	std::vector<Item> items;
	std::vector<size_t> availAt;	// chunk delivery: number of bytes fed when the item came out
	std::vector<size_t> posAfter;
	std::vector<size_t> needAt;	// input that had been delivered before the last delivery (chunk) or two reads ago (stream) when the item came out
	bool finished;
	int afterError;			// items still pulled after the first error
	u64 nextTime;

	Session( const SessionSpec& sp, const std::string& bytes_);
	~Session();
	void step();			// one activation
	std::string describe() const;
	u64 suspensions, midToken;
	std::unique_ptr<ScannerBox> sc;
	int maxErr;
	bool verifyPos, asked;
private:
	bool feedNext();
	bool pull();			// returns false when suspended
	std::unique_ptr<SimStream> stream;
	std::string zdata;
	char* chunk; size_t chunksize;
	size_t fed, prevFed; size_t cutIdx; int stage;
	bool waiting;
	Rng rng;
	size_t limit;
	unsigned short maskAnd, maskOr; size_t maskItem; unsigned remaskIdx;
};

// plan <-> sessions
void genDelivery( Rng& rng, const std::vector<size_t>& hot, size_t len, unsigned int unit, Plan& out, int encIn, int kind, int maskPct);
std::vector<SessionSpec> parseSessions( const Plan& p);
// scan the whole document in one piece (the reference execution)
void scanWhole( const SessionSpec& sp, const std::string& bytes, std::vector<Item>& items, int maxErr);
void runSessions( std::vector<std::unique_ptr<Session> >& ss);
std::string damageFragment( size_t k, int enc);	// a piece of XML in an encoding
std::string damageBytes( const Plan& p, size_t b, size_t e, std::string bytes);
void genDamage( Rng& rng, Plan& out, int enc, int n);

}//namespace
#endif
