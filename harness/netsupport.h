// A scripted HTTP server on the loopback network, for checks of clients and proxies.
#ifndef NETSUPPORT_H
#define NETSUPPORT_H
#include "support.h"
#include <QtCore/QTimer>
#include <QtNetwork/QHostAddress>
#include <unistd.h>

// A request as it arrived at the scripted server, read independently of the library.
struct SReq {
	int conn; QByteArray line, method, target, head, body; Hdrs headers; bool bad; QByteArray why;
	SReq() : conn(-1), bad(false) {}
};

// How to answer: segments sent one after another, then what to do with the connection.
struct SAns {
	QVector<QByteArray> segments; QVector<int> gaps; // Milliseconds before each segment (0: the next pass of the event loop, -1: at once).
	enum End { Keep, Close, Abort, Stall } end; int endGap; int holdId; // holdId >= 0: waits for release(holdId) before sending.
	bool early; // Answer when the head has arrived and stop reading.
	SAns() : end(Keep), endGap(-1), holdId(-1), early(false) {}
	QByteArray all() const { QByteArray r; for (const QByteArray& s : segments) r += s; return r; }
};

class RawServer;

class RawConn : public QObject {
public:
	RawServer* server; QTcpSocket* sock; QByteArray in; int id; SAns ans; int at; bool answering, stalled, gone, headSeen; QByteArray raw; QTimer timer; SAns early; bool hasEarly;
	RawConn(RawServer* s, QTcpSocket* k, int i);
	void read();
	void start(const SAns& a) { ans = a; at = 0; answering = true; next(); }
	void next();
	void finish();
};

class RawServer : public QTcpServer {
public:
	QVector<RawConn*> conns; QVector<SReq> requests; std::function<SAns(const SReq&, int)> answer; std::function<bool(const SReq&, SAns&)> onHead; QVector<int> released; int stray;
	RawServer() : stray(0) { QObject::connect(this, &QTcpServer::newConnection, [this]() { while (QTcpSocket* k = nextPendingConnection()) { conns << new RawConn(this, k, conns.size()); } }); }
	~RawServer() { qDeleteAll(conns); }
	// A loopback address of its own, so that ports never run out.
	bool start(Gen& g, bool v6 = false)
	{
		for (int i = 0; i < 20; ++i)
		{
			QHostAddress a = v6 ? QHostAddress(QHostAddress::LocalHostIPv6) : QHostAddress(quint32(0x7f000000u | (quint32(getpid() & 0xff) << 16) | g.u(1, 0xfffe)));
			if (listen(a, 0)) return true;
		}
		return false;
	}
	// Same address as the other server, another port.
	bool startBeside(const RawServer& other) { return listen(other.serverAddress(), 0); }
	// Another address, perhaps one that looks alike, and the same port.
	bool startAcross(Gen& g, const RawServer& other)
	{
		for (int i = 0; i < 20; ++i)
		{
			quint32 a = other.serverAddress().toIPv4Address(), b = g.chance(1, 2) ? (a & 0xffffff00u) | g.u(1, 254) : (a & 0xffff0000u) | g.u(1, 0xfffe);
			if (b != a && listen(QHostAddress(b), other.serverPort())) return true;
		}
		return false;
	}
	// One of two, told apart from the other by its host, its port or both.
	const char* startSecond(Gen& g, const RawServer& other)
	{
		switch (g.u(0, 5))
		{
		case 0: case 1: return startBeside(other) ? "same host, other port" : 0;
		case 2: case 3: return startAcross(g, other) ? "same port, other host" : start(g) ? "two servers" : 0;
		default: return start(g) ? "two servers" : 0;
		}
	}
	QByteArray host() const { QByteArray a = serverAddress().toString().toLatin1(); return a.contains(':') ? "[" + a + "]" : a; }
	QByteArray authority() const { return host() + ":" + num(serverPort()); }
	int openConns() const { int n = 0; for (RawConn* c : conns) if (!c->gone) ++n; return n; }
	void release(int id) { released << id; for (RawConn* c : conns) if (c->answering && c->ans.holdId == id && c->at == 0) c->next(); }
};

inline RawConn::RawConn(RawServer* s, QTcpSocket* k, int i) : server(s), sock(k), id(i), at(0), answering(false), stalled(false), gone(false), headSeen(false), hasEarly(false)
{
	k->setParent(this); timer.setSingleShot(true);
	QObject::connect(k, &QTcpSocket::readyRead, this, [this]() { read(); });
	QObject::connect(k, &QTcpSocket::disconnected, this, [this]() { gone = true; timer.stop(); });
	QObject::connect(&timer, &QTimer::timeout, this, [this]() { if (at < ans.segments.size()) { sock->write(ans.segments.at(at++)); sock->flush(); next(); } else finish(); });
	if (k->bytesAvailable()) read();
}

// Reads one request; false when incomplete. Bodies by Content-Length or chunked.
inline bool readRequest(QByteArray& in, SReq& r, bool& headOk)
{
	headOk = false;
	int e = in.indexOf("\r\n\r\n"); if (e < 0) return false;
	r.head = in.left(e + 4); QList<QByteArray> lines; { int p = 0; while (p < e) { int q = in.indexOf("\r\n", p); lines << in.mid(p, q - p); p = q + 2; } }
	r.line = lines.value(0); int a = r.line.indexOf(' '), b = r.line.lastIndexOf(' ');
	if (a <= 0 || b <= a + 1 || r.line.indexOf(' ', a + 1) != b) { r.bad = true; r.why = "request line \"" + show(r.line) + "\""; }
	else { r.method = r.line.left(a); r.target = r.line.mid(a + 1, b - a - 1); if (r.line.mid(b + 1) != "HTTP/1.1") { r.bad = true; r.why = "version in \"" + show(r.line) + "\""; } }
	long long length = 0; int lengths = 0; bool chunked = false;
	for (int i = 1; i < lines.size(); ++i)
	{
		int c = lines.at(i).indexOf(": "); if (c <= 0) { r.bad = true; r.why = "header line \"" + show(lines.at(i)) + "\""; continue; }
		Hdr h(lines.at(i).left(c), lines.at(i).mid(c + 2)); r.headers << h;
		if (ieq(h.first, "content-length")) { ++lengths; bool ok; length = h.second.toLongLong(&ok); if (!ok || length < 0) { r.bad = true; r.why = "Content-Length " + show(h.second); length = 0; } }
		if (ieq(h.first, "transfer-encoding") && ieq(h.second, "chunked")) chunked = true;
	}
	if (lengths > 1) { r.bad = true; r.why = "several Content-Length headers"; }
	headOk = true;
	int p = e + 4;
	if (chunked)
	{
		r.body.clear();
		for (;;)
		{
			int q = in.indexOf("\r\n", p); if (q < 0) return false; bool ok; int n = in.mid(p, q - p).toInt(&ok, 16); if (!ok) { r.bad = true; r.why = "chunk size"; in.clear(); return true; }
			if (in.size() < q + 2 + n + 2) return false;
			if (n == 0) { p = q + 4; break; }
			r.body += in.mid(q + 2, n); p = q + 2 + n + 2;
		}
	}
	else { if (in.size() - p < length) return false; r.body = in.mid(p, int(length)); p += int(length); }
	in.remove(0, p); return true;
}

inline void RawConn::read()
{
	if (stalled) return;
	QByteArray d = sock->readAll(); in += d; raw += d;
	for (;;)
	{
		SReq r; bool head; r.conn = id; if (in.isEmpty()) return;
		bool whole = readRequest(in, r, head);
		if (!whole)
		{
			if (head && !headSeen && server->onHead) { headSeen = true; SAns a; if (server->onHead(r, a)) { stalled = true; sock->setReadBufferSize(1); server->requests << r; start(a); } }
			return;
		}
		headSeen = false;
		if (answering) ++server->stray; // A request before the previous one was answered.
		server->requests << r;
		if (server->answer) start(server->answer(r, server->requests.size() - 1));
	}
}

inline void RawConn::next()
{
	if (gone) return;
	if (at == 0 && ans.holdId >= 0 && !server->released.contains(ans.holdId)) return;
	while (at < ans.segments.size())
	{
		int gap = at < ans.gaps.size() ? ans.gaps.at(at) : -1;
		if (gap >= 0) { timer.start(gap); return; }
		sock->write(ans.segments.at(at++)); sock->flush();
	}
	if (ans.endGap >= 0) timer.start(ans.endGap); else finish();
}

inline void RawConn::finish()
{
	if (!answering) return;
	answering = false;
	if (ans.end == SAns::Close) sock->disconnectFromHost();
	else if (ans.end == SAns::Abort) sock->abort();
}

// Cuts a message into segments with gaps between some.
inline void segment(Gen& g, SAns& a, const QByteArray& wire, int maxPieces = 12)
{
	QVector<QByteArray> v = g.cut(wire, maxPieces);
	if (v.size() > 40) { QVector<QByteArray> w; int per = v.size() / 40 + 1; for (int i = 0; i < v.size(); i += per) { QByteArray s; for (int j = i; j < qMin(v.size(), i + per); ++j) s += v.at(j); w << s; } v = w; }
	int slow = 0;
	for (const QByteArray& s : v) { int gap = -1; switch (g.weighted({3, 5, 1})) { case 0: break; case 1: gap = 0; break; default: if (slow++ < 4) gap = int(g.u(1, 2)); else gap = 0; } a.segments << s; a.gaps << gap; }
}

// Requests to make.
inline QByteArray genMethod(Gen& g) { return g.chance(4, 5) ? g.pickB({"GET", "POST", "PUT", "DELETE", "HEAD"}) : g.pickB({"PATCH", "OPTIONS", "PROPFIND", "M-SEARCH", "x", "get", "DELETED"}); }
inline Hdrs genHdrs(Gen& g)
{
	Hdrs h; int n = int(g.size(5)); bool big = g.chance(1, 25); if (big) n += int(g.u(20, 60));
	for (int i = 0; i < n; ++i) { QByteArray name = genHeaderName(g); if (ieq(name, "host")) name = "X-Host"; h << Hdr(name, genHeaderValue(g, big ? 600 : g.chance(1, 40) ? 17000 : 30)); }
	return h;
}
inline QByteArray genData(Gen& g, int max = 100000)
{
	switch (g.weighted({4, 4, 2, 2, 1})) { case 0: return QByteArray(); case 1: return g.bytes(1 + g.size(100)); case 2: return g.bytes(g.u(4090, 4100)); case 3: return g.bytes(g.size(5000)); default: if (max == 100000 && g.chance(1, 40)) return QByteArray(int(g.u(1000000, 3000000)), 'd') + g.bytes(g.u(1, 50)); return g.bytes(g.size(uint32_t(max))); }
}
inline QByteArray urlText(Gen& g, int max, bool query)
{
	static const QByteArray plain("abcXYZ019-._~!$&'()*+,;=:@/"); QByteArray r; int n = int(g.size(uint32_t(max)));
	for (int i = 0; i < n; ++i)
	{
		if (g.chance(1, 6)) r += g.pickB({"%20", "%25", "%C3%A9", "%3F", "%23", "%2F", "%22", "%3C", "%7B", "%E2%82%AC"}); else { char x = plain.at(int(g.u(0, uint32_t(plain.size() - 1)))); r += x; }
		if (query && g.chance(1, 12)) r += "?";
	}
	return r;
}
struct Target { QByteArray path, query; bool hasQuery; QByteArray url(const QByteArray& base) const { return base + path + (hasQuery ? "?" + query : QByteArray()); } QByteArray wire() const { return (path.isEmpty() ? QByteArray("/") : path) + (hasQuery ? "?" + query : QByteArray()); } };
inline Target genTarget(Gen& g, bool emptyPath = true)
{
	Target t; t.path = emptyPath && g.chance(1, 8) ? QByteArray() : "/" + urlText(g, 30, false); t.hasQuery = g.chance(2, 5); if (t.hasQuery) t.query = urlText(g, 30, true);
	if (g.chance(1, 60)) t.path = "/" + QByteArray(int(g.u(8000, 9000)), 'p');
	return t;
}
#endif
