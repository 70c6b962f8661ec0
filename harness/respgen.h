// Responses as a server might send them: generator with the reading an independent client must come to.
#ifndef RESPGEN_H
#define RESPGEN_H
#include "support.h"

struct Msg {
	enum Framing { NoBody, Length, Chunked, Eof } framing;
	int status; QByteArray version, reason, headWire, bodyWire, body; Hdrs headers, trailers; // Headers as on the wire, framing headers included.
	bool keepAlive, needsEof, head;
	QByteArray wire() const { return headWire + bodyWire; }
	Msg() : framing(NoBody), status(200), keepAlive(true), needsEof(false), head(false) {}
	QByteArray text() const { return num(status) + " " + version + (framing == NoBody ? " bodiless" : framing == Length ? " length " + num(body.size()) : framing == Chunked ? " chunked " + num(body.size()) : " eof " + num(body.size())); }
};

struct MsgOpts {
	bool eof, close, oddSpaces, trailers, upgrade, gzipName, informational, extraLength; int maxBody; bool head, blanks; int status, minExtraLength;
	MsgOpts() : eof(true), close(true), oddSpaces(true), trailers(true), upgrade(true), gzipName(false), informational(true), extraLength(true), maxBody(20000), head(false), blanks(false), status(0), minExtraLength(0) {}
};

inline bool bodilessStatus(int s) { return s / 100 == 1 || s == 204 || s == 304; }

inline QByteArray genRespHeaderName(Gen& g)
{
	if (g.chance(1, 4)) return g.pickB({"Content-Lengths", "Content-Lengt", "Connections", "Connectio", "Con", "c", "p", "t", "u", "Transfer-Encodin", "Transfer-Encodings", "Transfer", "Proxy", "Proxy-Connectio", "Upgrad", "Upgrades", "Cont", "Content-Type", "Content", "Server", "Date", "ETag", "Set-Cookie", "Co", "Upgrade-Insecure"});
	QByteArray n = genHeaderName(g);
	while (ieq(n, "upgrade") || ieq(n, "proxy-connection") || ieq(n, "location") || ieq(n, "content-encoding")) n += "x";
	return n;
}

// Splits body into chunks and writes them, with extensions and trailers.
inline QByteArray chunkWire(Gen& g, const QByteArray& body, const Hdrs& trailers, bool odd)
{
	QByteArray w; int at = 0;
	while (at < body.size())
	{
		int left = body.size() - at; int n = left;
		switch (g.weighted({2, 3, 2})) { case 0: break; case 1: n = int(g.u(1, uint32_t(qMin(left, 40)))); break; default: n = int(g.u(1, uint32_t(left))); }
		if (body.size() > 3000) n = qMin(left, qMax(n, body.size() / 20));
		QByteArray sz = QByteArray::number(n, 16); if (g.chance(1, 4)) sz = sz.toUpper(); if (odd && g.chance(1, 8)) sz = QByteArray(int(g.u(1, 4)), '0') + sz;
		if (odd && g.chance(1, 6)) sz += g.pickB({";", ";name", ";name=value", "; name=\"va lue\"", " ", ";a;b=c", "   "});
		w += sz + "\r\n" + body.mid(at, n) + "\r\n"; at += n;
	}
	w += odd && g.chance(1, 8) ? "000" : "0"; if (odd && g.chance(1, 8)) w += ";last"; w += "\r\n";
	for (const Hdr& t : trailers) w += t.first + ": " + t.second + "\r\n";
	return w + "\r\n";
}

// extra: headers to place among the generated ones.
inline Msg genMsg(Gen& g, const MsgOpts& o = MsgOpts(), const Hdrs& extra = Hdrs(), const QByteArray* givenBody = 0)
{
	Msg m; m.head = o.head;
	m.version = g.chance(1, 4) ? "HTTP/1.0" : "HTTP/1.1";
	switch (g.weighted({6, 3, 2, uint32_t(o.informational ? 1 : 0)}))
	{
	case 0: m.status = 200; break;
	case 1: m.status = g.pickB({"201", "204", "304", "301", "302", "400", "404", "500", "503", "205", "206", "299"}).toInt(); break;
	case 2: m.status = int(g.u(200, 999)); break;
	default: m.status = int(g.u(101, 199));
	}
	if (o.status) m.status = o.status;
	bool bodiless = bodilessStatus(m.status);
	m.reason = g.chance(1, 6) ? QByteArray() : g.chance(1, 2) ? QByteArray("OK") : genHeaderValue(g, 30);
	m.framing = bodiless ? Msg::NoBody : Msg::Framing(1 + g.weighted({5, 4, uint32_t(o.eof ? 2 : 0)}));
	if (m.framing == Msg::Chunked && m.version == "HTTP/1.0") m.version = "HTTP/1.1";
	if (givenBody) m.body = *givenBody;
	else if (!bodiless)
	{
		int size = 0; switch (g.weighted({1, 5, 3, 1})) { case 0: break; case 1: size = int(g.size(80)); break; case 2: size = int(g.size(3000)); break; default: size = int(g.size(uint32_t(o.maxBody))); }
		m.body = g.bytes(uint32_t(size));
	}
	if (bodiless) m.body.clear();
	// Headers.
	int n = int(g.size(6)); if (g.chance(1, 100)) n += 40;
	for (int i = 0; i < n; ++i) m.headers << Hdr(genRespHeaderName(g), genHeaderValue(g, g.chance(1, 30) ? 3000 : 40));
	for (const Hdr& h : extra) m.headers.insert(int(g.u(0, uint32_t(m.headers.size()))), h);
	bool close = false, keep = false;
	if (g.chance(1, 3))
	{
		QByteArray v = g.pickB({"keep-alive", "Keep-Alive", "close", "Close", "CLOSE", "closed", "clos", "keep-alives", "keep"});
		if (!o.close && ieq(v, "close")) v = "keep-alive";
		close = ieq(v, "close"); keep = ieq(v, "keep-alive");
		m.headers.insert(int(g.u(0, uint32_t(m.headers.size()))), Hdr(g.pickB({"Connection", "connection", "CONNECTION"}), v));
	}
	if (!o.close && m.version == "HTTP/1.0" && !keep) m.version = "HTTP/1.1";
	if (o.upgrade && !bodiless && g.chance(1, 12)) m.headers.insert(int(g.u(0, uint32_t(m.headers.size()))), Hdr("Upgrade", g.pickB({"h2c", "h2,h2c", "TLS/1.0"})));
	if (m.framing == Msg::Length || (m.framing == Msg::NoBody && o.extraLength && m.status != 304 && m.status / 100 != 1 && m.status != 204 && g.chance(1, 3)))
		m.headers.insert(int(g.u(0, uint32_t(m.headers.size()))), Hdr(g.pickB({"Content-Length", "content-length", "CONTENT-LENGTH"}), QByteArray(g.chance(1, 10) ? "00" : "") + num(m.body.size())));
	// What a bodiless response says about the length of a body it does not have.
	if (m.framing == Msg::NoBody && o.extraLength && m.status == 304 && g.chance(1, 3)) m.headers << Hdr("Content-Length", num(g.u(0, 5000)));
	if (m.framing == Msg::Chunked)
	{
		m.headers.insert(int(g.u(0, uint32_t(m.headers.size()))), Hdr(g.pickB({"Transfer-Encoding", "transfer-encoding"}), g.pickB({"chunked", "Chunked", "CHUNKED"})));
		if (o.extraLength && g.chance(1, 15)) m.headers.insert(int(g.u(0, uint32_t(m.headers.size()))), Hdr("Content-Length", num(g.u(uint32_t(o.minExtraLength), 100)))); // Overridden by chunked.
		if (o.trailers && g.chance(1, 4)) for (int i = 0, e = int(g.u(1, 3)); i < e; ++i) m.trailers << Hdr("X-Trailer-" + num(i), genHeaderValue(g, 20));
	}
	// Blanks between a value and the end of its line.
	if (o.blanks) for (Hdr& h : m.headers) if ((ieq(h.first, "connection") || ieq(h.first, "transfer-encoding") || ieq(h.first, "content-length")) && g.chance(1, 8)) h.second += QByteArray(int(g.u(1, 3)), ' ');
	m.needsEof = m.framing == Msg::Eof;
	m.keepAlive = (m.version == "HTTP/1.1" ? !close : keep) && !m.needsEof;
	m.headWire = m.version + " " + num(m.status); if (!m.reason.isEmpty() || g.chance(1, 2)) m.headWire += " " + m.reason;
	m.headWire += "\r\n";
	for (const Hdr& h : m.headers) m.headWire += h.first + ":" + (o.oddSpaces && g.chance(1, 8) ? g.pickB({"", "  ", "\t", " \t "}) : QByteArray(" ")) + h.second + "\r\n";
	for (Hdr& h : m.headers) while (h.second.startsWith(' ') || h.second.startsWith('\t')) h.second.remove(0, 1); // Leading blanks are not part of the value.
	for (Hdr& h : m.trailers) while (h.second.startsWith(' ') || h.second.startsWith('\t')) h.second.remove(0, 1);
	m.headWire += "\r\n";
	if (m.framing == Msg::Chunked) m.bodyWire = chunkWire(g, m.body, m.trailers, o.oddSpaces); else m.bodyWire = m.body;
	if (o.head) { m.bodyWire.clear(); m.body.clear(); m.trailers.clear(); }
	return m;
}
#endif
