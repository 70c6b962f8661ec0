// Response plans: what a handler does to answer one request, a model of what must appear on the wire, and the comparison.
#ifndef PLAN_H
#define PLAN_H
#include "support.h"
#include "HttpHelpers.h"

struct Plan {
	int status; Hdrs headers; bool whole, asString; QByteArray content; QVector<QByteArray> pieces; bool end;
	Plan() : status(200), whole(true), asString(false), end(false) {}
	int steps() const { return 1 + pieces.size() + (end ? 1 : 0); }
	void step(Pillow::HttpConnection* c, int i) const
	{
		if (i == 0)
		{
			if (!whole) c->writeHeaders(status, toColl(headers));
			else if (asString) c->writeResponseString(status, toColl(headers), QString::fromLatin1(content));
			else c->writeResponse(status, toColl(headers), content);
		}
		else if (i <= pieces.size()) c->writeContent(pieces.at(i - 1));
		else c->endContent();
	}
	void run(Pillow::HttpConnection* c) const { for (int i = 0; i < steps(); ++i) step(c, i); }
	QByteArray text() const
	{
		QByteArray t = whole ? "writeResponse(" : "writeHeaders("; t += num(status) + ", " + showHdrs(headers);
		if (whole) t += ", " + num(content.size()) + " bytes"; t += ")";
		for (int i = 0; i < pieces.size(); ++i) { if (i == 8) { t += " ..."; break; } t += " writeContent(" + num(pieces.at(i).size()) + ")"; }
		return end ? t + " endContent()" : t;
	}
};

// The reason phrases of the known status codes; an independent copy.
inline QByteArray refReason(int status)
{
	static const struct { int code; const char* reason; } t[] = {
		{100, "Continue"}, {101, "Switching Protocols"}, {200, "OK"}, {201, "Created"}, {202, "Accepted"}, {203, "Non-Authoritative Information"}, {204, "No Content"}, {205, "Reset Content"}, {206, "Partial Content"},
		{300, "Multiple Choices"}, {301, "Moved Permanently"}, {302, "Found"}, {303, "See Other"}, {304, "Not Modified"}, {305, "Use Proxy"}, {307, "Temporary Redirect"},
		{400, "Bad Request"}, {401, "Unauthorized"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {406, "Not Acceptable"}, {407, "Proxy Authentication Required"}, {408, "Request Timeout"}, {409, "Conflict"}, {410, "Gone"}, {411, "Length Required"}, {412, "Precondition Failed"}, {413, "Request Entity Too Large"}, {414, "Request-URI Too Long"}, {415, "Unsupported Media Type"}, {416, "Requested Range Not Satisfiable"}, {417, "Expectation Failed"},
		{500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}, {504, "Gateway Timeout"}, {505, "HTTP Version Not Supported"}};
	for (unsigned i = 0; i < sizeof t / sizeof *t; ++i) if (t[i].code == status) return t[i].reason;
	return QByteArray();
}

struct Model {
	int status; long long length; bool chunked, keep, done, head; QByteArray body; QVector<QByteArray> accepted;
	int doneAt; // Step after which the response is complete, -1 if never.
};

inline bool clientKeeps(const Req& r)
{
	QByteArray v = headerValue(r.headers, "connection");
	return r.version == "HTTP/1.1" ? !ieq(v, "close") : ieq(v, "keep-alive");
}

inline Model modelOf(const Req& r, const Plan& p)
{
	Model m; m.head = r.method == "HEAD"; m.done = false; m.doneAt = -1;
	m.status = refReason(p.status).isEmpty() ? 500 : p.status;
	m.length = p.whole ? p.content.size() : -1;
	if (hasHeader(p.headers, "content-length"))
	{
		QByteArray v = headerValue(p.headers, "content-length"); bool ok = !v.isEmpty();
		for (int i = 0; i < v.size(); ++i) if (v.at(i) < '0' || v.at(i) > '9') ok = false;
		m.length = -1; if (ok) { m.length = v.toLongLong(&ok); if (!ok) m.length = -1; }
	}
	m.chunked = ieq(headerValue(p.headers, "transfer-encoding"), "chunked") && r.version == "HTTP/1.1" && m.length < 0;
	m.keep = clientKeeps(r) && (m.length >= 0 || m.chunked) && !ieq(headerValue(p.headers, "connection"), "close");
	if (m.length == 0 || m.head) { m.done = true; m.doneAt = 0; }
	for (int i = p.whole ? -1 : 0; i < p.pieces.size(); ++i)
	{
		const QByteArray& x = i < 0 ? p.content : p.pieces.at(i);
		if (m.done || x.isEmpty()) continue;
		if (m.length >= 0 && m.body.size() + x.size() > m.length) continue;
		m.body += x; m.accepted << x;
		if (m.body.size() == m.length) { m.done = true; m.doneAt = i + 1; }
	}
	if (p.end && !m.done && m.length < 0) { m.done = true; m.doneAt = p.steps() - 1; }
	return m;
}

inline bool isSpecial(const QByteArray& name) { return ieq(name, "content-length") || ieq(name, "content-type") || ieq(name, "connection") || ieq(name, "transfer-encoding"); }

struct PlanOpts {
	bool completes;    // The response always completes.
	bool keepable;     // No response that ends the connection.
	bool oddLengths;   // Content-Length headers that are invalid, negative or huge, pieces beyond the length, calls after the end.
	int maxPiece;
	PlanOpts() : completes(true), keepable(false), oddLengths(false), maxPiece(3000) {}
};

inline Plan genPlan(Gen& g, const PlanOpts& o)
{
	Plan p;
	switch (g.weighted({6, 2, uint32_t(o.oddLengths ? 1 : 0)}))
	{
	case 0: { static const int t[] = {200, 201, 404, 500, 302, 400, 503, 202, 403, 505, 100, 101}; p.status = t[g.u(0, 9)]; break; }
	case 1: { static const int t[] = {200, 203, 205, 206, 300, 301, 303, 305, 307, 401, 402, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 501, 502, 504}; p.status = t[g.u(0, sizeof t / sizeof *t - 1)]; if (p.status == 402) p.status = 400; break; }
	default: p.status = g.chance(1, 4) ? -int(g.u(0, 2000)) : int(g.u(0, 2000)); if ((p.status >= 100 && p.status < 200) || p.status == 204 || p.status == 304) p.status = 999; break;
	}
	int nh = int(g.size(6)); bool ct = false;
	for (int i = 0; i < nh; ++i) { Hdr h(genHeaderName(g), genHeaderValue(g, g.chance(1, 30) ? 3000 : 40)); if (isSpecial(h.first)) { if (ct || !ieq(h.first, "content-type")) continue; ct = true; } p.headers << h; }
	if (!ct && g.chance(1, 3)) { p.headers << Hdr(g.pickB({"Content-Type", "content-type", "CONTENT-TYPE"}), g.pickB({"text/html", "", "application/x; y=z"})); }
	if (g.chance(1, 4)) p.headers.insert(int(g.u(0, uint32_t(p.headers.size()))), Hdr(g.pickB({"Connection", "connection"}), g.pickB({"keep-alive", "Keep-Alive", o.keepable ? "keep-alive" : "close", o.keepable ? "KEEP-alive" : "Close", o.keepable ? "x" : "CLOSE"})));
	if (g.chance(1, 12)) { p.status = g.chance(1, 2) ? 204 : 304; p.whole = true; return p; }
	bool chunkedHeader = false;
	p.whole = !g.chance(1, 2);
	if (p.whole)
	{
		p.asString = g.chance(1, 8);
		int n = g.chance(1, 5) ? 0 : int(g.size(uint32_t(o.maxPiece)));
		p.content = p.asString ? g.chars(uint32_t(n % 200), "abc XYZ019") : g.bytes(uint32_t(n));
		if (g.chance(1, 10)) { p.headers << Hdr("Transfer-Encoding", "chunked"); chunkedHeader = true; }
		if (!o.oddLengths) { if (g.chance(1, 8)) p.headers << Hdr("Content-Length", num(p.content.size())); return p; }
	}
	else
	{
		int n = int(g.size(8));
		for (int i = 0; i < n; ++i) p.pieces << (g.chance(1, 6) ? QByteArray() : g.bytes(1 + g.size(uint32_t(o.maxPiece))));
	}
	int total = p.content.size(); for (const QByteArray& x : p.pieces) total += x.size();
	int framing = int(g.weighted({3, 3, uint32_t(o.keepable ? 0 : 2)}));
	if (p.whole && framing == 1) framing = 0;
	if (framing == 0 && !p.whole) p.headers.insert(int(g.u(0, uint32_t(p.headers.size()))), Hdr(g.pickB({"Content-Length", "content-length"}), num(total)));
	else if (framing == 1 && !chunkedHeader) { p.headers << Hdr(g.pickB({"Transfer-Encoding", "transfer-encoding"}), g.pickB({"chunked", "Chunked"})); p.end = true; }
	else if (framing == 2 || !p.whole) p.end = true;
	if (o.oddLengths)
	{
		if (g.chance(1, 3))
		{
			for (int i = p.headers.size() - 1; i >= 0; --i) if (ieq(p.headers.at(i).first, "content-length")) p.headers.remove(i);
			QByteArray v;
			switch (g.u(0, 4))
			{
			case 0: v = g.pickB({"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "99999999999999999999"}); break;
			case 1: v = "-" + num(g.u(1, 5000)); break;
			case 2: v = g.pickB({"", "abc", "1x", "x1", "-", "0x10", "1.5", "-1", "-2"}); break;
			case 3: v = num(int(g.u(0, uint32_t(total + 10)))); break;
			default: v = num((long long)(g.u(0, 0xffffffffu)) * g.u(1, 64)); break;
			}
			p.headers.insert(int(g.u(0, uint32_t(p.headers.size()))), Hdr("Content-Length", v));
		}
		if (g.chance(1, 3)) p.pieces << g.bytes(g.size(200));
		if (g.chance(1, 3)) p.end = !p.end;
	}
	return p;
}

// A plan whose response completes and nothing is called after it completed.
inline Plan genCompletePlan(Gen& g, const Req& r, PlanOpts o)
{
	Plan p = genPlan(g, o);
	if (o.keepable && r.version != "HTTP/1.1" && !p.whole && !hasHeader(p.headers, "content-length"))
	{
		// Chunked is not available: use a length.
		int total = 0; for (const QByteArray& x : p.pieces) total += x.size();
		for (int i = p.headers.size() - 1; i >= 0; --i) if (ieq(p.headers.at(i).first, "transfer-encoding")) p.headers.remove(i);
		p.headers << Hdr("Content-Length", num(total)); p.end = false;
	}
	Model m = modelOf(r, p);
	if (!m.done) { if (m.length < 0) p.end = true; m = modelOf(r, p); }
	if (m.done && m.doneAt < p.steps() - 1)
	{
		// Drop what would come after the end.
		bool atEnd = p.end && m.doneAt == p.steps() - 1;
		if (!atEnd) p.end = false;
		if (p.pieces.size() > m.doneAt) p.pieces.resize(m.doneAt);
	}
	return p;
}

// Compares one response read from the wire with the model.
inline bool compareResponse(Ctx& c, const Resp& r, const Req& q, const Plan& p, const Model& m, const QByteArray& where, bool headOnly = false)
{
	c.eq(r.version, q.version, where + "response version");
	c.eqn(r.status, m.status, where + "response status");
	c.eq(r.reason, refReason(m.status), where + "response reason");
	Hdrs want, got;
	for (const Hdr& h : p.headers) if (!isSpecial(h.first)) want << h;
	for (const Hdr& h : r.headers) if (!isSpecial(h.first)) got << h;
	if (want != got) c.fail("response headers", where + "response headers: got " + showHdrs(got) + ", the handler gave " + showHdrs(want));
	// Content-Type: the handler's, or text/plain for a non-empty response without one.
	Hdrs types, wantTypes; for (const Hdr& h : r.headers) if (ieq(h.first, "content-type")) types << h;
	for (const Hdr& h : p.headers) if (ieq(h.first, "content-type")) wantTypes << h;
	if (wantTypes.isEmpty() && m.length > 0) wantTypes << Hdr("Content-Type", "text/plain");
	if (types != wantTypes) c.fail("content type", where + "content type headers: got " + showHdrs(types) + ", expected " + showHdrs(wantTypes));
	// Length and encoding.
	Hdrs lengths; for (const Hdr& h : r.headers) if (ieq(h.first, "content-length")) lengths << h;
	c.eqn(lengths.size(), m.length >= 0 ? 1 : 0, where + "number of Content-Length headers");
	if (m.length >= 0 && !lengths.isEmpty()) c.eq(lengths.at(0).second, num(m.length), where + "Content-Length on the wire");
	int te = 0; for (const Hdr& h : r.headers) if (ieq(h.first, "transfer-encoding")) { ++te; if (ieq(h.second, "chunked") && !m.chunked) c.fail("chunked announced", where + "chunked announced but not applicable"); }
	if (m.chunked) c.eqn(te, 1, where + "number of Transfer-Encoding headers");
	// Connection.
	int close = 0, keep = 0, other = 0; for (const Hdr& h : r.headers) if (ieq(h.first, "connection")) { if (ieq(h.second, "close")) ++close; else if (ieq(h.second, "keep-alive")) ++keep; else ++other; }
	c.eqn(other, 0, where + "unexpected Connection headers");
	if (m.keep) { c.eqn(close, 0, where + "'Connection: close' on a response that keeps the connection"); if (q.version != "HTTP/1.1") c.eqn(keep, 1, where + "'Connection: keep-alive' on an older-version response that keeps the connection"); }
	else { c.eqn(close, 1, where + "'Connection: close' on a response that closes"); c.eqn(keep, 0, where + "'Connection: keep-alive' on a response that closes"); }
	if (headOnly || c.failed()) return !c.failed();
	c.eq(r.body, m.head ? QByteArray() : m.body, where + "response body");
	if (!m.head) c.eqn(r.framing, m.chunked ? Resp::Chunked : m.length >= 0 ? Resp::Length : Resp::UntilClose, where + "framing");
	return !c.failed();
}
#endif
