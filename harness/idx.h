// Random inverted indexes with an in-memory model of what they must contain.
#pragma once
#include "h.h"
#include "LuceneHeaders.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "PayloadAttribute.h"
#include "OffsetAttribute.h"
#include "Payload.h"
#include "LogDocMergePolicy.h"
#include "SerialMergeScheduler.h"
#include "TermDocs.h"
#include "TermPositions.h"
#include "TermEnum.h"
#include "_SegmentReader.h"
#include "IndexCommit.h"
using namespace Lucene;
namespace X {
struct Tok { std::wstring text; int inc; std::string payload; };
typedef std::vector<Tok> Toks;
struct Doc { int id; std::map<std::wstring, Toks> f; bool gone = false; };
struct Stream : TokenStream {
    Toks t; size_t p = 0; TermAttributePtr term; PositionIncrementAttributePtr pos; PayloadAttributePtr pay;
    virtual ~Stream() {}
    void init(const Toks& x) { t = x; term = addAttribute<TermAttribute>(); pos = addAttribute<PositionIncrementAttribute>(); pay = addAttribute<PayloadAttribute>(); }
    virtual bool incrementToken() {
        if (p == t.size()) return false;
        clearAttributes(); term->setTermBuffer(t[p].text); pos->setPositionIncrement(t[p].inc);
        if (!t[p].payload.empty()) { ByteArray b = ByteArray::newInstance((int)t[p].payload.size()); memcpy(b.get(), t[p].payload.data(), t[p].payload.size()); pay->setPayload(newLucene<Payload>(b)); }
        ++p; return true;
    }
    virtual void reset() { p = 0; }
};
inline DocumentPtr document(const Doc& d, const std::set<std::wstring>& omit = std::set<std::wstring>()) {
    DocumentPtr r = newLucene<Document>();
    r->add(newLucene<Field>(L"id", StringUtils::toString(d.id), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
    for (auto& e : d.f) { boost::shared_ptr<Stream> s = newInstance<Stream>(); s->init(e.second); FieldPtr f = newLucene<Field>(e.first, TokenStreamPtr(s)); f->setOmitNorms(true); if (omit.count(e.first)) f->setOmitTermFreqAndPositions(true); r->add(f); }
    return r;
}
inline std::string bytes(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)H::rnd(256); return s; }
inline std::wstring word(int alpha, int maxlen) { std::wstring s; int n = 1 + H::rnd(maxlen); for (int i = 0; i < n; ++i) { int k = H::rnd(alpha); s += k < 26 ? L'a' + k : k == 26 ? (wchar_t)0xe9 : k == 27 ? (wchar_t)0x4e2d : k == 28 ? (wchar_t)0x1f600 : (wchar_t)(L'0' + k % 10); } return s; }
struct Post { int freq = 0; std::vector<std::pair<int, std::string>> pos; };
typedef std::map<std::pair<std::wstring, std::wstring>, std::map<int, Post>> Inv;      // (field, text) -> doc -> postings
inline void invert(Inv& v, int doc, const Doc& d) {
    v[{ L"id", StringUtils::toString(d.id) }][doc].freq = 1; v[{ L"id", StringUtils::toString(d.id) }][doc].pos.push_back({ 0, "" });
    for (auto& e : d.f) { int p = -1; for (auto& t : e.second) { p += t.inc; if (p < 0) p = 0; Post& q = v[{ e.first, t.text }][doc]; q.freq++; q.pos.push_back({ p, t.payload }); } }
}
inline std::string nm(const std::pair<std::wstring, std::wstring>& k) { return H::narrow(k.first) + ":" + H::narrow(k.second.substr(0, 40)); }
// one posting list against the model; docs maps model numbers to reader numbers (live documents only)
inline void docs(const IndexReaderPtr& r, const std::pair<std::wstring, std::wstring>& k, const std::map<int, Post>& m, bool omit) {
    std::vector<std::pair<int, int>> want; for (auto& e : m) if (!r->isDeleted(e.first)) want.push_back({ e.first, omit ? 1 : e.second.freq });
    TermPtr t = newLucene<Term>(k.first, k.second); TermDocsPtr td = r->termDocs(t); size_t i = 0;
    if (H::chance(50)) { for (; i < want.size(); ++i) { REQUIRE(td->next(), nm(k), ": next() ends after ", i, " of ", want.size()); REQUIRE(td->doc() == want[i].first && td->freq() == want[i].second, nm(k), ": doc ", td->doc(), " freq ", td->freq(), " want ", want[i].first, " freq ", want[i].second); } REQUIRE(!td->next(), nm(k), ": next() goes on to ", td->doc()); }
    else { int b = 1 + H::rnd(40); Collection<int32_t> ds = Collection<int32_t>::newInstance(b), fs = Collection<int32_t>::newInstance(b);
        while (true) { int n = td->read(ds, fs); if (n == 0) break; REQUIRE(n <= b, "read returns too many"); for (int j = 0; j < n; ++j, ++i) { REQUIRE(i < want.size(), nm(k), ": read() returns more than ", want.size()); REQUIRE(ds[j] == want[i].first && fs[j] == want[i].second, nm(k), ": read doc ", ds[j], " freq ", fs[j], " want ", want[i].first, " freq ", want[i].second); } }
        REQUIRE(i == want.size(), nm(k), ": read() ends after ", i, " of ", want.size()); }
}
inline void skips(const IndexReaderPtr& r, const std::pair<std::wstring, std::wstring>& k, const std::map<int, Post>& m, bool omit, int steps, int stride) {
    std::vector<std::pair<int, int>> want; for (auto& e : m) if (!r->isDeleted(e.first)) want.push_back({ e.first, omit ? 1 : e.second.freq });
    bool wp = !omit && H::chance(40); TermDocsPtr td = wp ? TermDocsPtr(r->termPositions(newLucene<Term>(k.first, k.second))) : r->termDocs(newLucene<Term>(k.first, k.second)); int cur = -1; std::string tr;
    TermPositionsPtr tp = wp ? boost::dynamic_pointer_cast<TermPositions>(td) : TermPositionsPtr();
    for (int s = 0; s < steps; ++s) {
        bool step = H::chance(30); int target = cur + 1 + (H::chance(30) ? 0 : H::rnd(stride)); bool ok; size_t i;
        if (!step && cur < 0 && H::chance(20)) target = 0;
        for (i = 0; i < want.size() && (want[i].first <= cur || (!step && want[i].first < target)); ++i);
        tr += step ? " n" : H::str(" s", target);
        if (step) ok = td->next(); else ok = td->skipTo(target);
        REQUIRE(ok == (i < want.size()), nm(k), ": ", step ? "next" : "skipTo", " is ", ok, " after", tr);
        if (!ok) break;
        REQUIRE(td->doc() == want[i].first && td->freq() == want[i].second, nm(k), ": at doc ", td->doc(), " freq ", td->freq(), " want ", want[i].first, " freq ", want[i].second, " after", tr);
        cur = td->doc();
        if (tp && H::chance(60)) { auto& q = m.find(cur)->second.pos; int n = H::chance(50) ? (int)q.size() : (int)H::rnd(q.size() + 1);
            for (int j = 0; j < n; ++j) { int p = tp->nextPosition(); REQUIRE(p == q[j].first, nm(k), ": position ", p, " want ", q[j].first, " in doc ", cur, " after", tr); if (H::chance(50)) { REQUIRE(tp->getPayloadLength() == (int)q[j].second.size(), nm(k), ": payload length ", tp->getPayloadLength(), " want ", q[j].second.size()); if (q[j].second.size()) { ByteArray b = tp->getPayload(ByteArray(), 0); REQUIRE(!memcmp(b.get(), q[j].second.data(), q[j].second.size()), nm(k), ": payload bytes"); } } } }
    }
}
inline void positions(const IndexReaderPtr& r, const std::pair<std::wstring, std::wstring>& k, const std::map<int, Post>& m) {
    TermPositionsPtr tp = r->termPositions(newLucene<Term>(k.first, k.second));
    for (auto& e : m) { if (r->isDeleted(e.first)) continue;
        REQUIRE(tp->next() && tp->doc() == e.first && tp->freq() == e.second.freq, nm(k), ": positions of doc ", e.first);
        for (auto& q : e.second.pos) { int p = tp->nextPosition(); REQUIRE(p == q.first, nm(k), ": position ", p, " want ", q.first, " in doc ", e.first);
            REQUIRE(tp->isPayloadAvailable() == !q.second.empty(), nm(k), ": payload availability"); REQUIRE(tp->getPayloadLength() == (int)q.second.size(), nm(k), ": payload length ", tp->getPayloadLength(), " want ", q.second.size(), " in doc ", e.first);
            if (!q.second.empty()) { ByteArray b = tp->getPayload(ByteArray(), 0); REQUIRE(!memcmp(b.get(), q.second.data(), q.second.size()), nm(k), ": payload bytes in doc ", e.first); } } }
    REQUIRE(!tp->next(), nm(k), ": positions go on");
}
inline void terms(const IndexReaderPtr& r, const Inv& v) {
    TermEnumPtr te = r->terms(); for (auto& e : v) { REQUIRE(te->next(), "term enumeration ends before ", nm(e.first)); REQUIRE(te->term()->field() == e.first.first && te->term()->text() == e.first.second, "term ", nm({ te->term()->field(), te->term()->text() }), " want ", nm(e.first)); REQUIRE(te->docFreq() == (int)e.second.size(), nm(e.first), ": docFreq ", te->docFreq(), " want ", e.second.size()); }
    REQUIRE(!te->next(), "term enumeration goes on to ", nm({ te->term()->field(), te->term()->text() }));
}
}
