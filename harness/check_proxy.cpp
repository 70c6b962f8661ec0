// C14 transparency of the proxy, C15 failures of origins and clients.
#include "respgen.h"
#include "netsupport.h"
#include "plan.h"
#include "HttpHandlerProxy.h"
#include <QtCore/QPointer>
#include <QtCore/QSet>
#include <QtCore/QMap>
#include <zlib.h>

using namespace Pillow;

namespace {

struct Op {
	enum Kind { Complete, Truncated, Garbage, Refused, Hang, Declined } kind; enum Quit { Stay, MidRequest, Announced, Later, Bytes } quit;
	int client, server; QByteArray method, version, data; Target target; Hdrs headers; Msg msg; SAns ans; int cut, quitAt; bool quitByDelete, pipelined;
	// Observed.
	bool fed, announced, answered, terminated, gone, accepted; Resp got; QByteArray bad, partial;
	Op() : kind(Complete), quit(Stay), client(0), server(0), cut(0), quitAt(0), quitByDelete(false), pipelined(false), fed(false), announced(false), answered(false), terminated(false), gone(false), accepted(false) {}
	bool done() const { return answered || terminated || gone; }
	QByteArray wire() const { QByteArray w = method + " " + target.wire() + " " + version + "\r\n"; for (const Hdr& h : headers) w += h.first + ": " + h.second + "\r\n"; return w + "\r\n" + data; }
};

// A request target up to equivalent percent-encoding.
QByteArray normTarget(const QByteArray& t)
{
	static const QByteArray plain("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"), reserved("!$&'()*+,;=:@/?#"), hex("0123456789ABCDEF"); QByteArray r;
	for (int i = 0; i < t.size(); ++i)
	{
		uchar x = uchar(t.at(i)); bool escaped = false;
		if (x == '%' && i + 2 < t.size() && isxdigit(uchar(t.at(i + 1))) && isxdigit(uchar(t.at(i + 2)))) { x = uchar(t.mid(i + 1, 2).toInt(0, 16)); escaped = true; i += 2; }
		if (x && (plain.indexOf(char(x)) >= 0 || (!escaped && reserved.indexOf(char(x)) >= 0))) r += char(x); else { r += '%'; r += hex.at(x >> 4); r += hex.at(x & 15); }
	}
	return r;
}

// Which request a target belongs to: the number it begins with.
int indexOf(const QByteArray& target) { int e = 1; while (e < target.size() && isdigit(uchar(target.at(e)))) ++e; bool ok; int i = target.mid(1, e - 1).toInt(&ok); return ok && target.startsWith('/') ? i : -1; }

class ClientDevice : public PipeDevice { public: std::function<void()> onWrite; ClientDevice(QObject* p) : PipeDevice(p) {} protected: qint64 writeData(const char* d, qint64 n) { qint64 r = PipeDevice::writeData(d, n); if (onWrite) onWrite(); return r; } };

struct Client { HttpConnection* conn; ClientDevice* dev; QVector<int> ops; int at, fedTo, pos; bool closed, quitArmed; Client() : conn(0), dev(0), at(0), fedTo(0), pos(0), closed(false), quitArmed(false) {} };

struct World : QObject {
	RawServer servers[2]; HttpHandlerProxy* proxy; QVector<Op> ops; QVector<Client> clients; QByteArray dead; QVector<HttpConnection*> spare; Gen* g; bool stray;
	World() : proxy(0), g(0), stray(false) {}
	~World() { for (Client& k : clients) delete k.conn; qDeleteAll(spare); delete proxy; }
	QUrl url(const Op& o) const { return o.kind == Op::Declined ? QUrl() : QUrl("http://" + (o.kind == Op::Refused ? dead : servers[o.server].authority())); }
	void open(int k)
	{
		Client& c = clients[k]; c.dev = new ClientDevice(this); c.pos = 0; c.closed = false; c.quitArmed = false;
		if (!c.conn && !spare.isEmpty() && g->chance(2, 3)) c.conn = spare.takeAt(int(g->u(0, uint32_t(spare.size() - 1)))); // As from the pool of a server.
		if (!c.conn)
		{
			c.conn = new HttpConnection;
			QObject::connect(c.conn, &HttpConnection::requestReady, this, [this](HttpConnection* q) { for (int i = 0; i < clients.size(); ++i) if (clients.at(i).conn == q) { announce(i, q); return; } stray = true; });
		}
		{ ClientDevice* d = c.dev; HttpConnection* q = c.conn; QObject::connect(q, &HttpConnection::closed, d, [this, k, d, q]() { if (clients.at(k).dev == d) clients[k].closed = true; QObject::disconnect(q, 0, d, 0); }); }
		c.dev->onWrite = [this, k]() { armQuit(k); };
		c.conn->initialize(c.dev, c.dev);
	}
	void announce(int k, HttpConnection* q)
	{
		Client& c = clients[k]; int i = -1; for (int j : c.ops) if (ops.at(j).target.wire() == q->requestUri()) i = j; if (i < 0 || ops.at(i).announced) { stray = true; return; }
		ops[i].announced = true; proxy->setProxiedUrl(url(ops.at(i))); bool ok = proxy->handleRequest(q); ops[i].accepted = ok;
		if (!ok) q->writeResponse(404, HttpHeaderCollection(), "declined");
		if (ops.at(i).quit == Op::Announced) { ClientDevice* d = c.dev; QTimer::singleShot(ops.at(i).quitAt, d, [this, k, i, d]() { if (clients.at(k).dev == d && !ops.at(i).done()) leave(k, i); }); }
	}
	// The client has read so many bytes of its response: it may leave from now on.
	void armQuit(int k)
	{
		Client& c = clients[k]; if (c.at >= c.ops.size() || c.quitArmed) return; const Op& o = ops.at(c.ops.at(c.at)); if (o.quit != Op::Bytes || c.dev->delivered.size() - c.pos < o.quitAt) return;
		c.quitArmed = true; ClientDevice* d = c.dev; int i = c.ops.at(c.at); QTimer::singleShot(0, d, [this, k, i, d]() { if (clients.at(k).dev == d && !ops.at(i).done()) leave(k, i); });
	}
	void leave(int k, int i)
	{
		Client& c = clients[k]; if (c.closed || !c.dev) return; read(k); if (c.closed || c.at >= c.ops.size() || c.ops.at(c.at) != i) return;
		Op& o = ops[i]; o.gone = true; o.partial = c.dev->delivered.mid(c.pos); ++c.at; bool del = o.quitByDelete;
		if (del) { HttpConnection* q = c.conn; c.conn = 0; c.dev->onWrite = nullptr; c.dev = 0; c.closed = true; c.fedTo = c.at; delete q; reopen(k); }
		else { c.dev->peerClose(); c.closed = true; reopen(k); }
	}
	void reopen(int k)
	{
		Client& c = clients[k]; if (c.dev) c.dev->onWrite = nullptr; c.dev = 0; c.fedTo = c.at; if (c.conn) { spare << c.conn; c.conn = 0; }
		if (c.at < c.ops.size()) { open(k); feed(k); }
	}
	void feed(int k)
	{
		for (;;)
		{
			Client& c = clients[k]; if (!c.dev || c.closed || c.fedTo >= c.ops.size()) return; if (c.fedTo > c.at && (!ops.at(c.ops.at(c.fedTo)).pipelined || ops.at(c.ops.at(c.fedTo)).quit == Op::MidRequest)) return;
			int i = c.ops.at(c.fedTo); ++c.fedTo; Op& o = ops[i]; o.fed = true; QByteArray w = o.wire(); bool mid = o.quit == Op::MidRequest; if (mid) w.truncate(qMin(o.quitAt, w.size() - 1));
			ClientDevice* d = c.dev; QVector<QByteArray> v = w.size() > 3000 || g->chance(1, 2) ? QVector<QByteArray>() << w : g->cut(w, 6);
			if (v.size() > 8) { v.clear(); v << w; }
			for (const QByteArray& x : v) { if (clients.at(k).dev != d || clients.at(k).closed) break; d->feed(x); }
			if (mid) { if (clients.at(k).dev == d) leave(k, i); return; }
		}
	}
	// Reads what arrived at client k.
	void read(int k)
	{
		for (;;)
		{
			Client& c = clients[k]; if (!c.dev || c.at >= c.ops.size()) return; Op& o = ops[c.ops.at(c.at)]; const QByteArray& d = c.dev->delivered; bool eof = c.closed;
			int p = c.pos; Resp r; QByteArray err; bool none = o.method == "HEAD"; { int s = d.mid(p + 9, 3).toInt(); if (d.size() - p > 12 && (s == 204 || s == 304)) none = true; }
			ParseResult res = d.size() == p ? Incomplete : readResponse(d, p, none, eof, r, err);
			if (res == Bad) { o.bad = err; o.terminated = true; o.got = r; ++c.at; return; }
			if (res == Incomplete) { if (eof && (o.announced || d.size() > p)) { o.terminated = true; o.partial = d.mid(c.pos); o.got = r; ++c.at; } return; }
			o.answered = true; o.got = r; c.pos = p; ++c.at;
		}
	}
	void step() { for (int k = 0; k < clients.size(); ++k) { read(k); if (!clients.at(k).dev) continue; if (clients.at(k).closed) reopen(k); else feed(k); } }
};

bool transport(const QByteArray& n) { return ieq(n, "connection") || ieq(n, "keep-alive") || ieq(n, "proxy-connection") || ieq(n, "transfer-encoding") || ieq(n, "te") || ieq(n, "trailer") || ieq(n, "upgrade") || ieq(n, "content-length"); }

// Headers in a form that does not depend on how equal names are put together (those of repeated).
QSet<QByteArray> repeatedNames(const Hdrs& h) { QSet<QByteArray> once, twice; for (const Hdr& x : h) { QByteArray n = asciiLower(x.first); if (once.contains(n)) twice << n; once << n; } return twice; }
QMap<QByteArray, QByteArrayList> normal(const Hdrs& h, const QSet<QByteArray>& repeated)
{
	QMap<QByteArray, QByteArrayList> m; for (const Hdr& x : h) { QByteArray n = asciiLower(x.first); if (!transport(n)) m[n] << x.second.trimmed(); }
	for (auto i = m.begin(); i != m.end(); ++i)
	{
		if (i.key() == "set-cookie") { i.value().removeAll(QByteArray()); continue; }
		if (!repeated.contains(i.key())) continue;
		const char sep = ','; QByteArrayList l; for (QByteArray v : i.value()) for (const QByteArray& e : (i.key() == "cookie" ? v.replace(';', sep) : v).split(sep)) if (!e.trimmed().isEmpty()) l << e.trimmed();
		i.value() = QByteArrayList() << l.join(sep);
	}
	return m;
}

QByteArray showNormal(const QMap<QByteArray, QByteArrayList>& m) { QByteArray t; for (auto i = m.begin(); i != m.end(); ++i) t += i.key() + "=\"" + show(i.value().join("\" \""), 80) + "\" "; return t; }

QByteArray compressed(const QByteArray& d, bool gzip)
{
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, gzip ? 31 : 15, 8, Z_DEFAULT_STRATEGY); QByteArray r(int(deflateBound(&z, uLong(d.size()))) + 64, 0);
	z.next_in = (Bytef*)d.constData(); z.avail_in = uInt(d.size()); z.next_out = (Bytef*)r.data(); z.avail_out = uInt(r.size()); deflate(&z, Z_FINISH); r.truncate(r.size() - int(z.avail_out)); deflateEnd(&z); return r;
}

// Where a chunked response can be cut: within the data of its chunks. QNetworkAccessManager takes some cut elsewhere
// (within chunk size lines, after the data) as complete, or never finishes their replies, depending on timing.
QVector<int> insideChunks(const QByteArray& wire, int p)
{
	QVector<int> r;
	for (;;) { int e = wire.indexOf("\r\n", p); if (e < 0) return r; int n = wire.mid(p, e - p).split(';').at(0).trimmed().toInt(0, 16); if (n <= 0) return r; for (int i = 0; i < n; ++i) r << e + 2 + i; p = e + 2 + n + 2; }
}

Op genOp(Gen& g, Ctx& c, int i, bool faults)
{
	Op o; o.server = int(g.chance(1, 3)); o.method = g.chance(4, 5) ? g.pickB({"GET", "POST", "PUT", "DELETE", "HEAD"}) : g.pickB({"PATCH", "OPTIONS", "PROPFIND", "M-SEARCH", "X", "DELETED", "HEADS", "REPORT"}); o.version = g.chance(1, 4) ? "HTTP/1.0" : "HTTP/1.1";
	o.target = genTarget(g); o.target.path = "/" + num(i) + (g.chance(1, 2) ? QByteArray() : o.target.path); if (o.target.query.isEmpty()) o.target.hasQuery = false;
	if (g.chance(1, 6)) o.target.path += g.pickB({"//x", "/.y", "/..z", "/a//", "/;p", "/...", "/~u", "/%7Eu", "/|x", "/\"x\"", "/[1]", "/%c3%a9", "/{}", "/\\", "/^`"});
	o.target.path.replace("/.", "/d."); // Dot segments (and for Qt, some that begin like them) are normalized.
	bool v11 = o.version == "HTTP/1.1"; o.headers << Hdr("Host", g.chance(1, 2) ? "example.org" : "h:81");
	int n = int(g.size(5)); for (int k = 0; k < n; ++k) { QByteArray name = genHeaderName(g); if (ieq(name, "host") || ieq(name, "content-length")) name = "X-H"; QByteArray v = genHeaderValue(g, g.chance(1, 40) ? 3000 : 40); if (v.trimmed().isEmpty()) { c.label("empty request header"); } o.headers << Hdr(name, v); }
	if (g.chance(1, 6)) { QByteArray name = g.pickB({"X-Twice", "Via", "Accept", "Cookie"}); o.headers << Hdr(name, "a=1") << Hdr(g.chance(1, 2) ? name : name.toLower(), "b=2"); c.label("repeated request header"); }
	if (g.chance(1, 6)) o.headers << Hdr("Cookie", "k" + num(i) + "=v"); if (g.chance(1, 5)) o.headers << Hdr("Accept-Encoding", g.pickB({"gzip", "identity", "gzip, deflate", "br"})); if (g.chance(1, 6)) o.headers << Hdr("Authorization", g.pickB({"Basic eDp5", "Bearer abc"})); if (g.chance(1, 10)) o.headers << Hdr("Range", "bytes=0-"); if (g.chance(1, 10)) o.headers << Hdr("Cache-Control", "no-cache");
	if (g.chance(1, 3)) o.headers << Hdr("Connection", v11 ? g.pickB({"close", "keep-alive"}) : g.pickB({"keep-alive", "keep-alive", "close"}));
	if (g.chance(2, 5)) { o.data = genData(g, 60000); o.headers.insert(int(g.u(0, uint32_t(o.headers.size()))), Hdr(g.pickB({"Content-Length", "content-length"}), num(o.data.size()))); }
	if (o.method == "POST" || o.method == "PUT") { if (!hasHeader(o.headers, "content-length")) o.headers << Hdr("Content-Length", "0"); }
	if (faults) { o.kind = Op::Kind(g.weighted({10, 5, 2, 2, 2})); } else if (g.chance(1, 25)) o.kind = Op::Declined;
	MsgOpts q; q.informational = false; q.head = o.method == "HEAD"; q.maxBody = 200000; q.upgrade = false; q.minExtraLength = 1; Hdrs extra;
	static const int statuses[] = {200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 400, 401, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 500, 501, 502, 503, 504, 505};
	q.status = g.chance(1, 3) ? 200 : g.chance(1, 25) ? int(g.u(200, 999)) : statuses[g.u(0, sizeof statuses / sizeof *statuses - 1)];
	if (g.chance(1, 4)) for (int k = 0, e = int(g.u(1, 3)); k < e; ++k) { extra << Hdr(g.pickB({"Set-Cookie", "set-cookie"}), "c" + num(k) + "=" + g.chars(g.u(0, 8), "abcXYZ01_-") + g.pickB({"", "; Path=/", "; Expires=Thu, 01 Jan 2037 00:00:00 GMT", "; Max-Age=1000; Path=/"})); c.label("Set-Cookie"); if (k) c.label("several Set-Cookie"); }
	if (g.chance(1, 6)) { extra << Hdr(g.pickB({"Location", "location"}), g.pickB({"http://example.org/a?b=c", "/x/y", "rel", "?q", "//host/p"})); c.label("Location"); }
	if (g.chance(1, 6)) { QByteArray name = g.pickB({"X-Twice", "Via", "Warning", "WWW-Authenticate"}); extra << Hdr(name, name.startsWith("W") ? "Basic realm=\"a\"" : "one") << Hdr(g.chance(1, 2) ? name : name.toLower(), "two"); c.label("repeated header"); }
	if ((q.status == 401 || q.status == 407) && g.chance(1, 2)) { extra << Hdr(q.status == 401 ? "WWW-Authenticate" : "Proxy-Authenticate", g.pickB({"Basic realm=\"x\"", "Digest realm=\"x\", nonce=\"y\"", "Unknown z", "Bearer"})); c.label("challenge"); }
	if (g.chance(1, 10)) extra << Hdr("X-Empty", ""); if (g.chance(1, 6)) extra << Hdr("ETag", "\"x\""); if (g.chance(1, 8)) extra << Hdr("Cache-Control", g.pickB({"no-store", "max-age=100", "public, max-age=1000"})); if (g.chance(1, 8)) extra << Hdr("Last-Modified", "Sun, 06 Nov 1994 08:49:37 GMT"); if (g.chance(1, 12)) extra << Hdr("Content-Disposition", "attachment; filename=x"); if (g.chance(1, 20)) extra << Hdr("Strict-Transport-Security", "max-age=10"); if (g.chance(1, 20)) extra << Hdr("Keep-Alive", "timeout=5");
	QByteArray coded; bool coding = g.chance(1, 8); // Encoded content is relayed as it is.
	if (coding) { QByteArray l = g.pickB({"gzip", "deflate", "GZIP", "br"}); coded = g.chars(g.size(3000), "abcabcabc \n<>"); if (g.chance(4, 5)) coded = compressed(coded, !ieq(l, "deflate")); extra << Hdr("Content-Encoding", l); c.label("encoded content"); }
	o.msg = genMsg(g, q, extra, coding ? &coded : 0); QByteArray wire = o.msg.wire(); int head = o.msg.headWire.size();
	bool eof = o.msg.framing == Msg::Eof && !q.head;
	// An unannounced close could cross the next request on that connection.
	bool announced = ieq(headerValue(o.msg.headers, "connection"), "close") || (o.msg.version == "HTTP/1.0" && !hasHeader(o.msg.headers, "connection")); o.ans.end = eof || announced ? SAns::Close : SAns::Keep;
	if (o.kind == Op::Truncated || o.kind == Op::Hang)
	{
		o.cut = int(g.chance(1, 3) ? g.u(0, uint32_t(head - 1)) : g.chance(1, 8) ? 0 : g.u(0, uint32_t(wire.size() - 1))); if (eof && o.cut >= head && o.kind == Op::Truncated) o.cut = head - 1;
		if (o.cut >= head && o.msg.framing == Msg::Chunked && !q.head && !bodilessStatus(o.msg.status)) { QVector<int> at = insideChunks(wire, head); o.cut = at.isEmpty() ? head - 1 : at.at(int(g.u(0, uint32_t(at.size() - 1)))); }
		if (o.kind == Op::Truncated && o.cut >= head && (q.head || bodilessStatus(o.msg.status))) o.cut = head - 1; // Complete, and the close could cross the next request.
		wire.truncate(o.cut); o.ans.end = o.kind == Op::Truncated ? (g.chance(1, 3) ? SAns::Abort : SAns::Close) : SAns::Stall; o.ans.endGap = int(g.u(0, 1)) - 1;
	}
	if (o.kind == Op::Garbage) { wire = g.pickB({"SSH-2.0-x\r\n\r\n", "\r\n\r\n\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "<html>no header at all</html>", "HTTQ/1.1 200 OK\r\n\r\n"}); o.ans.end = SAns::Close; }
	if (faults && g.chance(1, 3)) { o.quit = Op::Quit(g.u(1, 4)); switch (o.quit) { case Op::MidRequest: o.quitAt = int(g.u(0, uint32_t(o.wire().size() - 1))); break; case Op::Bytes: o.quitAt = int(g.chance(1, 2) ? g.u(1, 400) : g.u(1, uint32_t(wire.size() + 1))); break; case Op::Announced: o.quitAt = int(g.u(0, 3)); break; default: o.quitAt = int(g.u(0, 5)); } o.quitByDelete = g.chance(1, 4); }
	if (g.chance(1, 12) && o.kind != Op::Garbage && o.kind != Op::Truncated) { wire = "HTTP/1.1 100 Continue\r\n\r\n" + wire; c.label("100 Continue"); }
	segment(g, o.ans, wire, 10); if (g.chance(1, 2)) o.ans.holdId = i;
	o.pipelined = g.chance(1, 3);
	return o;
}

QByteArray describe(const Op& o)
{
	static const char* kinds[] = {"complete", "truncated", "garbage", "refused", "hang", "declined"}; static const char* quits[] = {"", " quits in request", " quits when announced", " quits later", " quits after bytes"};
	return "client " + num(o.client) + ": " + o.method + " " + o.version + " " + show(o.target.wire(), 60) + (o.data.isEmpty() ? QByteArray() : " sending " + num(o.data.size())) + " " + kinds[o.kind] + " " + o.msg.text() + (o.cut ? " cut " + num(o.cut) + "/" + num(o.msg.headWire.size()) : QByteArray()) + quits[o.quit] + (o.quit ? " " + num(o.quitAt) + (o.quitByDelete ? " (deleted)" : "") : QByteArray()) + (o.ans.holdId >= 0 ? " held" : "") + (o.pipelined ? " pipelined" : "");
}

// The origin's view of a relayed request.
void checkRequest(Ctx& c, World& w, int i, bool disturbed)
{
	Op& o = w.ops[i]; QByteArray where = "request " + num(i); const SReq* r = 0; int seen = 0;
	for (int s = 0; s < 2; ++s) for (const SReq& q : w.servers[s].requests) if (indexOf(q.target) == i) { r = &q; ++seen; if (s != o.server) { c.fail("target", where + " went to the wrong origin"); return; } }
	if (!o.announced) { if (seen) c.fail("request", where + " reached the origin although it was never complete"); return; }
	if (o.kind == Op::Refused || o.kind == Op::Declined) { if (seen) c.fail("request", where + " reached an origin"); return; }
	bool clean = o.kind == Op::Complete && o.quit == Op::Stay;
	if (!seen) { if (clean) c.fail("request", where + " never reached the origin; its client got " + show(o.got.head)); return; }
	if (clean && seen > 1 && !disturbed) { c.fail("request", where + " reached the origin " + num(seen) + " times"); return; }
	if (r->bad) { c.fail("request", where + ": " + r->why); return; }
	if (normTarget(r->target) != normTarget(o.target.wire())) { c.fail("target", where + " for " + show(o.target.wire()) + " arrived for " + show(r->target)); return; }
	c.eq(r->method, o.method, "method of " + where); if (r->method != o.method) return;
	if (r->body != o.data && !(o.method == "HEAD" && r->body.isEmpty())) { c.eq(r->body, o.data, "body of " + where); return; }
	QSet<QByteArray> rep = repeatedNames(o.headers); auto want = normal(o.headers, rep), got = normal(r->headers, rep);
	for (const char* extra : {"user-agent", "accept-language", "accept-encoding", "content-type"}) if (!want.contains(extra) || want.value(extra) == (QByteArrayList() << QByteArray())) { got.remove(extra); want.remove(extra); }
	if (want != got) { c.fail("request headers", where + ": origin received " + showNormal(got) + ", client sent " + showNormal(want)); return; }
}

void checkResponse(Ctx& c, const Op& o, int i)
{
	QByteArray where = "response " + num(i); const Resp& r = o.got;
	int status = refReason(o.msg.status).isEmpty() ? 500 : o.msg.status;
	if (r.status != status) { c.fail("status", where + ": status " + num(r.status) + ", origin sent " + num(o.msg.status)); return; }
	if (r.version != o.version) { c.fail("version", where + ": version " + r.version); return; }
	if (o.method != "HEAD" && r.body != o.msg.body) { c.eq(r.body, o.msg.body, "body of " + where + ", origin's " + showHdrs(o.msg.headers) + ", head " + show(r.head)); return; }
	QSet<QByteArray> rep = repeatedNames(o.msg.headers); auto want = normal(o.msg.headers, rep), got = normal(r.headers, rep); if (!want.contains("content-type")) got.remove("content-type");
	if (want != got) { c.fail("response headers", where + ": client received " + showNormal(got) + ", origin sent " + showNormal(want)); return; }
	// The length announced for a body that is not sent.
	QByteArray l = headerValue(r.headers, "content-length"), ol = headerValue(o.msg.headers, "content-length");
	if (o.method == "HEAD" && o.msg.framing == Msg::Length && !bodilessStatus(o.msg.status) && l.toLongLong() != ol.toLongLong()) { c.fail("length", where + ": Content-Length of the answer to HEAD is \"" + show(l) + "\", origin sent \"" + show(ol) + "\""); return; }
}

// The proxy's own answer to failures.
bool own503(const Op& o) { bool own = o.answered && o.got.status == 503 && o.got.body.isEmpty() && o.got.framing != Resp::UntilClose; for (const Hdr& h : o.got.headers) own = own && (ieq(h.first, "connection") || (ieq(h.first, "content-length") && h.second == "0")); return own; }

// Whether another request of the round made the origin of request i close a connection: QNetworkAccessManager sometimes
// gives that connection to the next request.
bool disturbed(const World& w, int first, int i) { for (int j = first; j < w.ops.size(); ++j) if (j != i && w.ops.at(j).server == w.ops.at(i).server && (w.ops.at(j).kind == Op::Truncated || w.ops.at(j).kind == Op::Garbage)) return true; return false; }

void proxyCase(Gen& g, Ctx& c, bool faults)
{
	const char* how = 0; World w; w.g = &g; if (!w.servers[0].start(g) || !(how = w.servers[1].startSecond(g, w.servers[0]))) { c.label("no socket"); return; }
	c.label(how);
	{ RawServer d; if (!d.listen(w.servers[0].serverAddress(), 0)) { c.label("no socket"); return; } w.dead = d.authority(); }
	w.proxy = new HttpHandlerProxy;
	for (RawServer& s : w.servers) s.answer = [&](const SReq& r, int) { int i = indexOf(r.target); return i >= 0 && i < w.ops.size() ? w.ops.at(i).ans : SAns(); };
	int rounds = int(g.u(1, 3));
	for (int round = 0; round < rounds && !c.failed(); ++round)
	{
		int first = w.ops.size(), nc = int(g.chance(1, 6) ? g.u(7, 20) : g.u(1, 4)); QVector<int> perClient;
		for (int k = 0; k < nc; ++k)
		{
			if (k >= w.clients.size()) w.clients << Client();
			int n = int(nc > 6 ? 1 : g.u(1, 3)); for (int j = 0; j < n; ++j) { int i = w.ops.size(); Op o = genOp(g, c, i, faults && !(round + 1 == rounds && round > 0)); o.client = k; w.ops << o; w.clients[k].ops << i; }
		}
		int total = w.ops.size() - first; if (nc > 6) c.label("more than six clients");
		for (int i = first; i < w.ops.size(); ++i) { const Op& o = w.ops.at(i); c.desc(num(i) + " [" + num(round) + "] " + describe(o) + "; "); if (o.method == "HEAD") c.label("HEAD"); if (o.pipelined) c.label("pipelined"); if (o.kind == Op::Declined) c.label("no URL"); if (o.msg.status >= 400) c.label(o.msg.body.isEmpty() ? "error status, empty" : "error status, content"); if (o.version == "HTTP/1.0" && o.msg.framing == Msg::Chunked) c.label("chunked to 1.0"); if (bodilessStatus(o.msg.status)) c.label("204/304"); }
		if (total > 1 || w.ops.at(first).kind != Op::Complete || w.ops.at(first).ans.segments.size() > 1) c.nontrivial();
		for (int k = 0; k < nc; ++k) { if (!w.clients.at(k).dev) w.open(k); w.feed(k); if (g.chance(1, 3)) settle(1); }
		// Requests of different clients do not wait for each other: all first ones arrive although none is answered yet.
		QVector<int> held; for (int k = 0; k < nc; ++k) { Client& q = w.clients[k]; if (q.at < q.ops.size()) { const Op& o = w.ops.at(q.ops.at(q.at)); if (o.kind == Op::Complete && o.quit == Op::Stay && o.ans.holdId >= 0 && q.ops.at(q.at) >= first) held << q.ops.at(q.at); } }
		auto arrived = [&](int i) { for (RawServer& s : w.servers) for (const SReq& r : s.requests) if (indexOf(r.target) == i) return true; return false; };
		if (!waitUntil([&]() { w.step(); for (int i : held) if (!arrived(i) && !own503(w.ops.at(i))) return false; return true; }, 20000)) { QByteArray l; for (int i : held) if (!arrived(i)) l += num(i) + " "; c.fail("concurrency", "requests " + l + "of clients of their own did not reach the origin while others were pending"); return; }
		if (held.size() > 6) c.label("more than six pending");
		// Later disconnects.
		for (int i = first; i < w.ops.size(); ++i) if (w.ops.at(i).quit == Op::Later) { int k = w.ops.at(i).client; QTimer::singleShot(w.ops.at(i).quitAt, &w, [&w, i, k]() { if (!w.ops.at(i).done() && w.clients.at(k).at < w.clients.at(k).ops.size() && w.clients.at(k).ops.at(w.clients.at(k).at) == i) w.leave(k, i); }); }
		QVector<int> order; for (int i = first; i < w.ops.size(); ++i) order.insert(int(g.u(0, uint32_t(order.size()))), i);
		for (int i : order) if (w.ops.at(i).ans.holdId >= 0) { for (RawServer& s : w.servers) s.release(i); if (g.chance(1, 2)) { settle(1); w.step(); } }
		// What a stalling origin sent reaches the client; then the client leaves.
		bool ok = waitUntil([&]()
		{
			w.step();
			for (int k = 0; k < w.clients.size(); ++k)
			{
				Client& q = w.clients[k]; if (q.at >= q.ops.size()) continue; const Op& o = w.ops.at(q.ops.at(q.at)); if (!(o.kind == Op::Hang || o.quit != Op::Stay) || !o.announced) continue;
				if (o.kind != Op::Hang) { continue; }
				int body = 0; if (o.cut >= o.msg.headWire.size() && o.msg.framing != Msg::Chunked && !o.msg.head) body = o.cut - o.msg.headWire.size();
				if (!o.msg.head && !bodilessStatus(o.msg.status) && o.msg.status != 401 && o.msg.status != 407) { const QByteArray d = q.dev->delivered.mid(q.pos); int e = d.indexOf("\r\n\r\n"); if (body && (e < 0 || d.size() - e - 4 < body)) continue; }
				if (!arrived(q.ops.at(q.at))) continue;
				w.leave(k, q.ops.at(q.at));
			}
			for (int i = first; i < w.ops.size(); ++i) if (!w.ops.at(i).done()) return false; return true;
		}, 20000);
		if (w.stray) { c.fail("announcement", "a request was announced twice or to no client"); return; }
		if (!ok) { for (int i = first; i < w.ops.size(); ++i) { const Op& o = w.ops.at(i); if (o.done()) continue; const Client& q = w.clients.at(o.client); if (q.ops.at(q.at) != i) continue; QByteArray oc; for (RawServer& sv : w.servers) for (const SReq& r : sv.requests) if (indexOf(r.target) == i) { RawConn* k = sv.conns.at(r.conn); oc += " [origin connection " + num(r.conn) + (k->gone ? " gone" : " open") + (k->answering ? " answering" : "") + ", state " + num(k->sock->state()) + ", to write " + num(k->sock->bytesToWrite()) + ", at " + num(k->at) + " of " + num(k->ans.segments.size()) + ", end " + num(o.ans.end) + "]"; }
			c.fail("left waiting", "request " + num(i) + oc + (o.announced ? arrived(i) ? " reached the origin" : " did not reach the origin" : " was not announced") + " and its client is left waiting after " + show(q.dev ? q.dev->delivered.mid(q.pos) : QByteArray(), 500)); return; } c.fail("left waiting", "?"); return; }
		settle(2);
		for (int i = first; i < w.ops.size(); ++i)
		{
			Op& o = w.ops[i]; QByteArray where = "request " + num(i);
			if (!o.bad.isEmpty()) { c.fail("invalid response", where + ": " + o.bad); return; }
			bool upset = faults && o.kind == Op::Complete && disturbed(w, first, i); if (upset && o.msg.status != 503 && own503(o)) { c.label("503 by a closed connection"); continue; }
			checkRequest(c, w, i, upset); if (c.failed()) return;
			if (o.kind == Op::Declined) { if (o.accepted) c.fail("declined", where + " was accepted without a URL to proxy to"); else if (!o.answered || o.got.status != 404 || (o.method != "HEAD" && o.got.body != "declined")) c.fail("declined", where + ": the answer of the next handler is not what arrived"); if (c.failed()) return; continue; }
			if (o.announced && !o.accepted) { c.fail("declined", where + " was declined although there is a URL"); return; }
			if (o.gone)
			{
				c.label("client left"); if (o.quitByDelete) c.label("connection deleted");
				// What it got is the beginning of its own response or of a 503.
				int e = o.partial.indexOf("\r\n\r\n"); if (e < 0) continue; int s = o.partial.mid(9, 3).toInt(), want = refReason(o.msg.status).isEmpty() ? 500 : o.msg.status; if (s != want && !(s == 503 && o.kind != Op::Complete)) { c.fail("status", where + ": the client that left had received status " + num(s)); return; }
				continue;
			}
			bool headOut = o.cut >= o.msg.headWire.size() && o.kind == Op::Truncated, aborting = o.ans.end == SAns::Abort;
			if (o.kind == Op::Complete) { if (o.terminated) { c.fail("terminated", where + ": complete response of the origin did not arrive; got " + show(o.partial, 300)); return; } checkResponse(c, o, i); if (c.failed()) return; if (o.msg.headers.size()) c.label("relayed"); continue; }
			// Failures.
			if (own503(o)) { c.label("503"); continue; } // Nothing of the origin's had been sent.
			if (!headOut) { c.fail("failure", where + ": the origin failed before its response head was complete, the client got " + (o.answered ? "status " + num(o.got.status) + " (" + show(o.got.head, 200) + show(o.got.body, 60) + ")" : "a terminated connection after \"" + show(o.partial, 200) + "\"")); return; }
			// The head was out: the client must see an incomplete response.
			if (o.answered)
			{
				bool blind = o.got.framing == Resp::UntilClose; // Nothing but the end of the connection tells.
				if (!blind) { c.fail("failure hidden", where + ": the origin died within its response but the client got a complete one of " + num(o.got.body.size()) + " bytes: " + show(o.got.head)); return; }
				if (!o.msg.body.startsWith(o.got.body)) { c.fail("content", where + ": content is not the beginning of the origin's"); return; } c.label("close-delimited cut");
			}
			else { int e = o.partial.indexOf("\r\n\r\n"); if (e >= 0 && o.got.framing == Resp::Length && !o.msg.body.startsWith(o.got.body)) { c.fail("content", where + ": content is not the beginning of the origin's"); return; } c.label("incomplete response"); }
		}
		for (RawServer& s : w.servers) if (s.stray) { c.fail("request", "a request on an origin connection whose response was pending"); return; }
	}
	// The handler may go with requests pending.
	if (faults && g.chance(1, 3) && !w.clients.isEmpty())
	{
		int i = w.ops.size(); Op o = genOp(g, c, i, false); o.kind = Op::Hang; o.ans.end = SAns::Stall; o.client = 0; w.ops << o; w.clients[0].ops << i; if (!w.clients.at(0).dev) w.open(0); w.feed(0); settle(int(g.u(0, 3))); w.step(); c.label("handler destroyed"); delete w.proxy; w.proxy = 0; settle(2);
	}
}

void c14(Gen& g, Ctx& c) { proxyCase(g, c, false); }
void c15(Gen& g, Ctx& c) { proxyCase(g, c, true); }

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C14", "One to three rounds of one to twenty clients sending one to three generated requests each (kept-alive, pipelined, HTTP/1.0 and 1.1, cut into pieces) through one proxy handler to two scripted loopback origins (the target switching per request, sometimes none), answered by generated responses of every known status and framing, segmented, delayed, held back and released in any order. Non-trivial: more than one request, or a segmented answer.",
			4000, 200000, c14, 90, 8, {"Repeated headers may be merged with ', ' ('; ' for Cookie), except Set-Cookie.", "Transport headers (Connection, Keep-Alive, Transfer-Encoding, Trailer, Upgrade, the framing Content-Length) are the proxy's own.", "Added User-Agent, Accept-Encoding, Accept-Language and Content-Type defaults are accepted."}, {"relayed", "HEAD", "pipelined", "no URL", "error status, empty", "error status, content", "chunked to 1.0", "204/304", "Set-Cookie", "several Set-Cookie", "repeated header", "repeated request header", "empty request header", "Location", "challenge", "more than six clients", "more than six pending", "100 Continue", "encoded content"}},
		{"C15", "As C14 with faults: origins that refuse, close or reset at every point of their response, answer garbage or stall, and clients that leave within their request, once announced, later, or after some bytes of the response (connection closed, or deleted, and its object reused), with other requests in flight; a last round without faults. Non-trivial: more than one request, or a fault.",
			4000, 200000, c15, 90, 8, {"A response cut within close-delimited content can only be told by the end of the connection.", "Chunked responses of the origin are cut within the data of chunks: QNetworkAccessManager reports some cut elsewhere as complete, or never.", "QNetworkAccessManager may give a connection closed by a failing origin to another request to it, which is then answered 503 or sent again; accepted in the round of the failure.", "No 100 Continue before a response that is cut: QNetworkAccessManager mixes up the attempts."}, {"503", "incomplete response", "client left", "connection deleted", "relayed", "handler destroyed", "more than six clients"}},
	};
	return pbt::main(argc, argv, checks);
}
