#include "support.h"
#include <QtCore/QThread>
#include <QtCore/QAbstractEventDispatcher>
#include <string.h>

bool waitUntil(const std::function<bool()>& cond, int ms)
{
	QElapsedTimer t; t.start();
	for (;;)
	{
		if (cond()) return true;
		if (t.elapsed() > ms) return cond();
		QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents, 10);
		QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
	}
}

void settle(int rounds)
{
	for (int i = 0; i < rounds; ++i)
	{
		QCoreApplication::sendPostedEvents();
		QCoreApplication::processEvents(QEventLoop::AllEvents);
		QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
	}
}

static unsigned char low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

bool ieq(const QByteArray& a, const QByteArray& b)
{
	if (a.size() != b.size()) return false;
	for (int i = 0; i < a.size(); ++i) if (low(a.at(i)) != low(b.at(i))) return false;
	return true;
}

QByteArray asciiLower(const QByteArray& a) { QByteArray r(a.constData(), a.size()); for (int i = 0; i < r.size(); ++i) r[i] = char(low(r.at(i))); return r; }

Hdrs toHdrs(const Pillow::HttpHeaderCollection& c)
{
	Hdrs h; for (int i = 0; i < c.size(); ++i) h << Hdr(QByteArray(c.at(i).first.constData(), c.at(i).first.size()), QByteArray(c.at(i).second.constData(), c.at(i).second.size()));
	return h;
}

Pillow::HttpHeaderCollection toColl(const Hdrs& h)
{
	Pillow::HttpHeaderCollection c; for (const Hdr& x : h) c << Pillow::HttpHeader(x.first, x.second);
	return c;
}

QByteArray showHdrs(const Hdrs& h) { QByteArray r = "{"; for (const Hdr& x : h) r += "\"" + show(x.first, 60) + "\": \"" + show(x.second, 80) + "\", "; return r + "}"; }
bool hasHeader(const Hdrs& h, const QByteArray& name) { for (const Hdr& x : h) if (ieq(x.first, name)) return true; return false; }
QByteArray headerValue(const Hdrs& h, const QByteArray& name) { for (const Hdr& x : h) if (ieq(x.first, name)) return x.second; return QByteArray(); }
QByteArray num(long long n) { char t[32]; snprintf(t, sizeof t, "%lld", n); return t; }

//
// Response reader
//

static bool allDigits(const QByteArray& b) { if (b.isEmpty()) return false; for (int i = 0; i < b.size(); ++i) if (b.at(i) < '0' || b.at(i) > '9') return false; return true; }

ParseResult readResponse(const QByteArray& d, int& pos, bool head, bool eof, Resp& out, QByteArray& err)
{
	out = Resp();
	int end = d.indexOf("\r\n\r\n", pos);
	if (end < 0)
	{
		err = "incomplete response head: \"" + show(d.mid(pos), 400) + "\"";
		return Incomplete;
	}
	QByteArray headBytes = d.mid(pos, end + 4 - pos);
	out.head = headBytes;
	int p = pos; pos = end + 4;
	int lineEnd = d.indexOf("\r\n", p);
	QByteArray line = d.mid(p, lineEnd - p);
	int sp = line.indexOf(' ');
	if (sp < 0) { err = "status line without status: \"" + show(line) + "\""; return Bad; }
	out.version = line.left(sp);
	QByteArray rest = line.mid(sp + 1);
	if (rest.size() < 4 || rest.at(3) != ' ' || !allDigits(rest.left(3))) { err = "malformed status line: \"" + show(line) + "\""; return Bad; }
	out.status = rest.left(3).toInt(); out.reason = rest.mid(4);
	if (!out.version.startsWith("HTTP/")) { err = "bad version in status line: \"" + show(line) + "\""; return Bad; }
	p = lineEnd + 2;
	bool chunked = false; int lengths = 0;
	while (p < end + 2)
	{
		lineEnd = d.indexOf("\r\n", p);
		QByteArray h = d.mid(p, lineEnd - p);
		int c = h.indexOf(':');
		if (c <= 0 || c + 1 >= h.size() + 1 || h.mid(c, 2) != ": ") { err = "malformed header line: \"" + show(h) + "\""; return Bad; }
		Hdr x(h.left(c), h.mid(c + 2));
		out.headers << x;
		if (ieq(x.first, "content-length"))
		{
			if (!allDigits(x.second)) { err = "invalid Content-Length on the wire: \"" + show(x.second) + "\""; return Bad; }
			++lengths; out.length = x.second.toLongLong();
		}
		if (ieq(x.first, "transfer-encoding") && ieq(x.second, "chunked")) chunked = true;
		p = lineEnd + 2;
	}
	if (lengths > 1) { err = "several Content-Length headers: " + show(headBytes, 600); return Bad; }
	if (lengths && chunked) { err = "both Content-Length and chunked: " + show(headBytes, 600); return Bad; }
	if (head) { out.framing = Resp::NoBody; return Ok; }
	if (chunked)
	{
		out.framing = Resp::Chunked;
		for (;;)
		{
			int e = d.indexOf("\r\n", pos);
			if (e < 0) { err = "incomplete chunk header"; return Incomplete; }
			QByteArray sz = d.mid(pos, e - pos); bool ok = false; int n = sz.toInt(&ok, 16);
			if (!ok || n < 0 || sz.startsWith('+') || sz.startsWith('-') || sz.startsWith("0x")) { err = "bad chunk size: \"" + show(sz) + "\""; return Bad; }
			pos = e + 2;
			if (d.size() < pos + n + 2) { err = "incomplete chunk"; return Incomplete; }
			out.body += d.mid(pos, n); pos += n;
			if (d.mid(pos, 2) != "\r\n") { err = "chunk not followed by CRLF but by \"" + show(d.mid(pos, 20)) + "\""; return Bad; }
			pos += 2;
			if (n == 0) return Ok;
			out.chunks << n;
		}
	}
	if (out.length >= 0)
	{
		out.framing = Resp::Length;
		if (d.size() - pos < out.length) { out.body = d.mid(pos); pos = d.size(); err = "body shorter than Content-Length " + num(out.length) + " (" + num(out.body.size()) + " bytes)"; return Incomplete; }
		out.body = d.mid(pos, int(out.length)); pos += int(out.length);
		return Ok;
	}
	out.framing = Resp::UntilClose;
	out.body = d.mid(pos); pos = d.size();
	if (!eof) { err = "close-delimited response still open"; return Incomplete; }
	return Ok;
}

//
// Requests
//

QByteArray Req::headWire() const
{
	QByteArray w = method + " " + uri;
	if (hasFragment) w += "#" + fragment;
	w += " " + version + "\r\n";
	for (int i = 0; i < headers.size(); ++i) w += headers.at(i).first + ":" + (i < pads.size() ? pads.at(i) : QByteArray(" ")) + headers.at(i).second + "\r\n";
	return w + "\r\n";
}
QByteArray Req::wire() const { return headWire() + body; }

static const QByteArray alnum("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789");

// One URI character (or escape) of the request grammar; extraChars are those the part allows beyond uchar.
static void uriChars(Gen& g, QByteArray& out, const QByteArray& extraChars, bool nonAscii)
{
	switch (g.weighted({8, 3, 2, 1, uint32_t(nonAscii ? 1 : 0), 1}))
	{
	case 0: out += alnum.at(g.u(0, alnum.size() - 1)); break;
	case 1: out += extraChars.at(g.u(0, extraChars.size() - 1)); break;
	case 2: // Escape.
	{
		static const QByteArray hex("0123456789abcdefABCDEF");
		out += '%'; if (g.chance(1, 12)) out += 'u';
		out += hex.at(g.u(0, hex.size() - 1)); out += hex.at(g.u(0, hex.size() - 1));
		break;
	}
	case 3: { static const QByteArray misc("$-_.!*'(),\"<>{}|\\^~[]`"); out += misc.at(g.u(0, misc.size() - 1)); break; }
	case 4: out += char(g.u(128, 255)); break;
	default: out += g.pickB({"%20", "%2F", "%25", "%C3%A9", "%E2%82%AC", "%00", "%2e%2e", "%1", "%41"}); if (out.endsWith("%1")) out += '0'; break;
	}
}

QByteArray genPath(Gen& g, bool nonAscii, int maxLen)
{
	QByteArray p = "/"; if (g.chance(1, 10)) p += "/";
	int n = int(g.size(uint32_t(maxLen)));
	while (p.size() < n + 1)
	{
		int before = p.size();
		uriChars(g, p, ":@&=+//-_.", nonAscii);
		if (before && p.at(before - 1) == '/' && false) break;
	}
	if (g.chance(1, 10)) { p += ";"; int m = int(g.size(10)); for (int i = 0; i < m; ++i) uriChars(g, p, ":@&=+/;", nonAscii); }
	return p;
}

QByteArray genQuery(Gen& g, bool nonAscii, int maxLen)
{
	QByteArray q; int n = int(g.size(uint32_t(maxLen)));
	while (q.size() < n) uriChars(g, q, "&=&=&=;/?:@+", nonAscii);
	return q;
}

QByteArray genHeaderName(Gen& g)
{
	static const QByteArray tok("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~");
	switch (g.weighted({3, 3}))
	{
	case 0: return g.pickB({"X-Test", "Accept", "Host", "x-test", "Cookie", "User-Agent", "Content-Type", "If-None-Match", "X-A"});
	default:
	{
		QByteArray n = g.chars(1 + g.size(20), tok);
		// Names with a meaning of their own are generated on purpose elsewhere.
		if (ieq(n, "content-length") || ieq(n, "connection") || ieq(n, "expect") || ieq(n, "transfer-encoding")) n += "x";
		return n;
	}
	}
}

QByteArray genHeaderValue(Gen& g, int maxLen)
{
	QByteArray v; int n = int(g.size(uint32_t(maxLen)));
	static const QByteArray c("abcdefghijklmnopqrstuvwxyz0123456789 ,;=:/%\"\\-_()<>@\t");
	if (n > 300) v = g.chars(n, c); else
	for (int i = 0; i < n; ++i) { if (g.chance(1, 20)) { char x = char(g.u(128, 255)); v += x; } else v += c.at(g.u(0, c.size() - 1)); }
	while (v.startsWith(' ')) v.remove(0, 1);
	return v;
}

Req genRequest(Gen& g, const ReqOpts& o)
{
	Req r;
	r.method = g.weighted({6, uint32_t(o.oddMethods ? 1 : 0)}) == 0 ? g.pickB({"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"})
		: g.chars(1 + g.u(0, 19), "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$-_.");
	int maxLen = 60;
	if (o.longFields && g.chance(1, 8)) maxLen = 1500;
	switch (g.weighted({12, 1, uint32_t(o.absoluteUris ? 1 : 0)}))
	{
	case 0:
		r.path = genPath(g, o.nonAscii, maxLen); r.uri = r.path;
		if (g.chance(1, 2)) { r.query = genQuery(g, o.nonAscii, maxLen); r.uri += "?" + r.query; }
		break;
	case 1: r.uri = o.absoluteUris ? "*" : "/"; if (!o.absoluteUris) r.path = "/"; break;
	default: r.uri = g.pickB({"http", "a", "x+y-z.0", "HTTP"}) + "://" + g.chars(g.size(20), alnum) + g.pickB({"", "/", "/a/b", "/x%20y", ";p=1"}); break;
	}
	if (o.fragments && g.chance(1, 6)) { r.hasFragment = true; r.fragment = genQuery(g, o.nonAscii, 30); }
	r.version = g.weighted({6, 3, uint32_t(o.oddVersions ? 1 : 0)}) == 0 ? QByteArray("HTTP/1.1") : g.chance(1, 8) && o.oddVersions ? g.pickB({"HTTP/0.9", "HTTP/2.0", "HTTP/11.1", "HTTP/1.10"}) : QByteArray("HTTP/1.0");
	int nh = int(g.size(g.chance(1, 12) ? 60 : 8));
	for (int i = 0; i < nh; ++i)
	{
		r.headers << Hdr(genHeaderName(g), genHeaderValue(g, o.longFields && g.chance(1, 20) ? 2000 : 40));
		r.pads << (g.chance(1, 6) ? QByteArray(int(g.u(0, 3)), ' ') : QByteArray(" "));
	}
	if (o.keepAliveHeaders && g.chance(1, 3)) { r.headers << Hdr(g.pickB({"Connection", "connection", "CONNECTION"}), g.pickB({"close", "keep-alive", "Close", "Keep-Alive", "KEEP-ALIVE", "upgrade", "closed"})); r.pads << " "; }
	if (o.bodies && g.chance(2, 5))
	{
		int n = int(g.weighted({5, 2, 1}));
		int size = n == 0 ? int(g.size(60)) : n == 1 ? int(g.size(4000)) : int(g.size(uint32_t(o.maxBody)));
		r.body = g.bytes(uint32_t(size));
		int at = int(g.u(0, uint32_t(r.headers.size())));
		r.headers.insert(at, Hdr(g.pickB({"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"}), num(size)));
		r.pads.insert(at, " ");
		if (o.expect && g.chance(1, 5)) { r.headers << Hdr(g.pickB({"Expect", "expect"}), g.pickB({"100-continue", "100-Continue", "200-ok"})); r.pads << " "; }
	}
	return r;
}

static int unhexRef(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }

QByteArray refPercentDecode(const QByteArray& b)
{
	QByteArray r;
	for (int i = 0; i < b.size();)
	{
		if (b.at(i) == '%' && i + 2 < b.size()) { r += char(unhexRef(b.at(i + 1)) * 16 + unhexRef(b.at(i + 2))); i += 3; }
		else r += b.at(i++);
	}
	return r;
}

static QByteArray deep(const QByteArray& b, bool& nullTerminated) { if (b.constData()[b.size()] != 0) nullTerminated = false; return QByteArray(b.constData(), b.size()); }

Seen Seen::of(Pillow::HttpConnection* c)
{
	Seen s; bool& z = s.nullTerminated; bool ignore;
	s.method = deep(c->requestMethod(), z); s.uri = deep(c->requestUri(), z); s.path = deep(c->requestPath(), z); s.query = deep(c->requestQueryString(), z);
	s.fragment = deep(c->requestFragment(), z); s.version = deep(c->requestHttpVersion(), z);
	const QByteArray& body = c->requestContent(); s.content = QByteArray(body.constData(), body.size()); (void)ignore;
	for (int i = 0; i < c->requestHeaders().size(); ++i)
		s.headers << Hdr(deep(c->requestHeaders().at(i).first, z), deep(c->requestHeaders().at(i).second, z));
	return s;
}

bool compareSeen(Ctx& c, const Seen& s, const Req& r, const QByteArray& where)
{
	c.eq(s.method, r.method, where + "request method");
	c.eq(s.uri, r.uri, where + "request uri");
	c.eq(s.path, r.path, where + "request path");
	c.eq(s.query, r.query, where + "request query string");
	c.eq(s.fragment, r.fragment, where + "request fragment");
	c.eq(s.version, r.version, where + "request http version");
	if (s.headers != r.headers) c.fail(where + "request headers", where + "request headers: got " + showHdrs(s.headers) + ", expected " + showHdrs(r.headers));
	c.eq(s.content, r.body, where + "request content");
	c.check(s.nullTerminated, where + "null termination", where + "a request field is not null-terminated");
	return !c.failed();
}
