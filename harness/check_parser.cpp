// C16 the response parser, C22 header collections and helper functions.
#include "respgen.h"
#include "plan.h"
#include "HttpClient.h"
#include "HttpHelpers.h"
#include "ByteArrayHelpers.h"
#include "private/ByteArray.h"
#include <QtCore/QDateTime>
#include <QtCore/QTimeZone>
#include <limits>

using namespace Pillow;

namespace {

//
// C16
//
struct Rec { int status, major, minor; Hdrs headers; QByteArray content; bool keep, eof, eofAtHead; int end; };

class Parser : public HttpResponseParser {
public:
	enum Act { None, Pause, Clear };
	QVector<Rec> done; int begins, heads, contents, completes, calls, actAt; Act act; bool acted; QByteArray pieces; bool eofAtHead, keepAtHead, lateCallback; int stop;
	Parser() : begins(0), heads(0), contents(0), completes(0), calls(0), actAt(-1), act(None), acted(false), eofAtHead(false), keepAtHead(false), lateCallback(false), stop(0) {}
	void arm(Act a, int at) { act = a; actAt = at; calls = 0; acted = false; }
	void reset() { done.clear(); begins = heads = contents = completes = 0; pieces.clear(); }
protected:
	bool hit() { if (acted && act == Clear) lateCallback = true; if (act == None || acted || calls++ != actAt) return false; acted = true; if (act == Pause) pause(); else clear(); return true; }
	void messageBegin() { HttpResponseParser::messageBegin(); ++begins; pieces.clear(); hit(); }
	void headersComplete() { HttpResponseParser::headersComplete(); ++heads; eofAtHead = completesOnEof(); keepAtHead = shouldKeepAlive(); hit(); }
	void messageContent(const char* d, int n) { HttpResponseParser::messageContent(d, n); ++contents; pieces.append(d, n); hit(); }
	void messageComplete()
	{
		HttpResponseParser::messageComplete(); ++completes;
		Rec r; r.status = statusCode(); r.major = httpMajor(); r.minor = httpMinor(); r.headers = toHdrs(headers()); r.content = content(); r.keep = shouldKeepAlive(); r.eof = completesOnEof(); r.eofAtHead = eofAtHead; r.end = 0;
		done << r; hit();
	}
};

struct Outcome { QVector<Rec> done; bool error; int errorCode, at; bool inBody; int status, major, minor; Hdrs headers; QByteArray content; bool flow; };

QByteArray showRec(const Rec& r) { return num(r.status) + " HTTP/" + num(r.major) + "." + num(r.minor) + " " + showHdrs(r.headers) + " content(" + num(r.content.size()) + ") \"" + show(r.content, 80) + "\" keep " + num(r.keep) + " eof " + num(r.eof) + "/" + num(r.eofAtHead) + " end " + num(r.end); }
bool sameRec(const Rec& a, const Rec& b) { return a.status == b.status && a.major == b.major && a.minor == b.minor && a.headers == b.headers && a.content == b.content && a.keep == b.keep && a.eof == b.eof && a.eofAtHead == b.eofAtHead && a.end == b.end; }

// Feeds a stream in pieces, injecting again what a completed (or paused) response left over.
Outcome feed(Ctx& c, Parser& p, const QVector<QByteArray>& pieces, bool eof)
{
	Outcome o; int at = 0; p.reset(); o.flow = true; int heads0 = 0;
	for (const QByteArray& x : pieces)
	{
		int pos = 0; int idle = 0;
		if (x.isEmpty()) { int n = p.inject(x); if (n != 0) c.fail("consumed", "injecting no data consumed " + num(n)); }
		while (pos < x.size() && !p.hasError())
		{
			int before = p.done.size();
			// A copy of exactly the remaining bytes: reads beyond them are caught.
			QByteArray rest = x.mid(pos); int n; { std::unique_ptr<char[]> b(new char[rest.size()]); memcpy(b.get(), rest.constData(), rest.size()); n = p.inject(b.get(), rest.size()); }
			if (n < 0 || n > rest.size()) { c.fail("consumed", "inject() of " + num(rest.size()) + " bytes returned " + num(n)); o.flow = false; return o; }
			pos += n;
			for (int i = before; i < p.done.size(); ++i) p.done[i].end = at + pos;
			if (p.done.size() > before + 1) { c.fail("consumed", "one inject() went past the end of a response"); o.flow = false; return o; }
			if (p.acted && p.act == Parser::Clear) { o.flow = false; goto out; }
			if (n == 0 && p.done.size() == before) { if (++idle > 2) { if (!p.hasError()) { c.fail("stuck", "inject() consumes nothing and reports no error"); o.flow = false; return o; } break; } } else idle = 0;
			if (p.isParsing()) c.fail("parsing", "isParsing() outside of inject()");
		}
		at += x.size();
		if (p.hasError()) break;
	}
	if (eof && !p.hasError()) { int before = p.done.size(); p.injectEof(); for (int i = before; i < p.done.size(); ++i) p.done[i].end = at; }
out:
	(void)heads0;
	o.done = p.done; o.error = p.hasError(); o.errorCode = p.error(); o.at = at; o.inBody = p.heads > p.completes;
	o.status = p.statusCode(); o.major = p.httpMajor(); o.minor = p.httpMinor(); o.headers = toHdrs(p.headers()); o.content = p.content();
	return o;
}

void sameOutcome(Ctx& c, const Outcome& a, const Outcome& b, const QByteArray& what)
{
	if (c.failed()) return;
	if (a.done.size() != b.done.size()) { c.fail("segmentation", what + ": " + num(a.done.size()) + " complete responses, or " + num(b.done.size())); return; }
	for (int i = 0; i < a.done.size(); ++i) if (!sameRec(a.done.at(i), b.done.at(i))) { c.fail("segmentation", what + ": response " + num(i) + " is " + showRec(a.done.at(i)) + ", or " + showRec(b.done.at(i))); return; }
	if (a.error != b.error || a.errorCode != b.errorCode) { c.fail("segmentation", what + ": error " + num(a.errorCode) + ", or " + num(b.errorCode)); return; }
	if (!a.error)
	{
		if (a.inBody != b.inBody) { c.fail("segmentation", what + ": headers completed in one way of cutting only"); return; }
		if (a.inBody && (a.status != b.status || a.major != b.major || a.minor != b.minor || a.headers != b.headers || a.content != b.content)) c.fail("segmentation", what + ": the incomplete response differs: content of " + num(a.content.size()) + ", or " + num(b.content.size()) + " bytes; headers " + showHdrs(a.headers) + ", or " + showHdrs(b.headers));
	}
}

// What reading a list of valid responses must yield.
void expectMsgs(Ctx& c, const QVector<Msg>& v, const Outcome& o, const QByteArray& where)
{
	if (c.failed()) return;
	if (o.error) { c.fail("valid", where + ": error " + num(o.errorCode) + " in a valid stream"); return; }
	if (o.done.size() != v.size()) { c.fail("valid", where + ": " + num(o.done.size()) + " responses of " + num(v.size()) + " completed"); return; }
	int end = 0;
	for (int i = 0; i < v.size(); ++i)
	{
		const Msg& m = v.at(i); Rec e; end += m.wire().size();
		e.status = m.status; e.major = 1; e.minor = m.version.endsWith('1') ? 1 : 0; e.headers = m.headers + m.trailers; e.content = m.body; e.keep = m.keepAlive; e.eof = e.eofAtHead = m.needsEof; e.end = end;
		if (!sameRec(o.done.at(i), e)) { c.fail("valid", where + ": response " + num(i) + " read as " + showRec(o.done.at(i)) + ", expected " + showRec(e)); return; }
	}
}

QVector<Msg> genMsgs(Gen& g, int max)
{
	QVector<Msg> v; int n = int(g.u(1, uint32_t(max)));
	for (int i = 0; i < n; ++i) { MsgOpts o; o.eof = o.close = i + 1 == n; o.blanks = true; v << genMsg(g, o); }
	return v;
}
QByteArray wires(const QVector<Msg>& v) { QByteArray w; for (const Msg& m : v) w += m.wire(); return w; }

QByteArray mutate(Gen& g, QByteArray w)
{
	static const QByteArray dict[] = {"\r\n", "\n", "\r", "\r\n\r\n", "Content-Length: 5\r\n", "Transfer-Encoding: chunked\r\n", "HTTP/1.1 200 OK\r\n", ": ", " ", "\t", "0\r\n\r\n", "ffffffffffffffff\r\n", "Connection: close\r\n", "Upgrade: x\r\n", "\r\n folded", "99999999999999999999", "-1", ";", QByteArray(1, 0), "X", "Content-Length:", "100", "X-Empty:\r\n"};
	for (int k = int(g.u(1, 4)); k > 0; --k)
	{
		int at = int(g.u(0, uint32_t(w.size())));
		if (g.chance(2, 3)) { int h = w.indexOf("\r\n\r\n"); if (h > 0) at = int(g.u(0, uint32_t(qMin(w.size(), h + 40)))); }
		switch (g.weighted({3, 3, 2, 2, 3}))
		{
		case 0: if (at < w.size()) w[at] = char(g.u(0, 255)); break;
		case 1: w.insert(at, dict[g.u(0, sizeof dict / sizeof *dict - 1)]); break;
		case 2: w.remove(at, int(g.u(1, 6))); break;
		case 3: w.truncate(at); break;
		default: { int n = int(g.u(1, 30)); w.insert(at, w.mid(int(g.u(0, uint32_t(w.size()))), n)); }
		}
	}
	return w;
}

QVector<QByteArray> cutWithEmpty(Gen& g, const QByteArray& w)
{
	QVector<QByteArray> v = g.cut(w, 40);
	if (g.chance(1, 6)) v.insert(int(g.u(0, uint32_t(v.size()))), QByteArray(""));
	return v;
}

// A number that does not fit into 64 bits, in a base.
QByteArray tooLong(Gen& g, int base)
{
	QByteArray r; int digits = base == 10 ? 20 : 17;
	if (g.chance(1, 4)) return base == 10 ? g.pickB({"18446744073709551616", "18446744073709551617", "18446744073709551621", "20000000000000000000", "99999999999999999999"}) : g.pickB({"10000000000000000", "10000000000000001", "11111111111111111", "1000000000000000f"});
	int n = digits + int(g.size(20)); r = QByteArray(1, base == 10 ? char(g.u('2', '9')) : "123456789abcdefABCDEF"[g.u(0, 20)]); while (r.size() < n) r += base == 10 ? char(g.u('0', '9')) : "0123456789abcdefABCDEF"[g.u(0, 21)];
	return r;
}

// A response that breaks the grammar. The whole stream must be refused, at the latest at its end (eof).
QByteArray genBroken(Gen& g, Ctx& c, bool& eof, QByteArray& what)
{
	MsgOpts o; o.blanks = true; int kind = int(g.weighted({2, 2, 3, 4, 4, 3, 4, 1})); Msg m; QByteArray w;
	for (int k = 0;; ++k) { m = genMsg(g, o); bool ok = kind == 3 ? m.framing == Msg::Length : kind == 4 ? m.framing == Msg::Chunked : kind == 5 ? m.framing == Msg::Chunked && !m.body.isEmpty() : kind == 6 ? !m.needsEof : true; if (ok) break; if (k == 30) { kind = 0; break; } }
	w = m.wire(); int line = w.indexOf("\r\n"), head = m.headWire.size();
	switch (kind)
	{
	case 0: what = g.pickB({"HTTP/x.1", "HTTP/1.x", "HTTP/1,1", "HTTP 1.1", "XTTP/1.1", "http/1.1", "HTTP/1.", "HTTPS/1.1", "HTTP/12345.1", "HTTP/1.12345", "HTTP/", "HTTP/.1", " HTTP/1.1", "HTTX/1.1", "HTP/1.1"}); w.replace(0, m.version.size(), what); what = "version " + what; break;
	case 1: what = g.pickB({"2x0", "2000", "-200", "x", "20 0"}); if (what == "20 0") what = "99999"; w.replace(m.version.size() + 1, 3, what); what = "status " + what; break;
	case 2: { int n = m.headers.isEmpty() ? -1 : int(g.u(0, uint32_t(m.headers.size() - 1))); QByteArray bad; do bad = QByteArray(1, char(g.u(0, 255))); while (strchr("!#$%&'*+-.^_`|~ :\r\n\"/", bad.at(0)) || isalnum(uchar(bad.at(0)))); if (bad.at(0) == 0 && g.chance(1, 2)) bad = "("; if (n < 0) { if (bad == "\t") bad = "("; w.insert(line + 2, bad + "X: y\r\n"); } else { int at = line + 2; for (int i = 0; i < n; ++i) at = w.indexOf("\r\n", at) + 2; int colon = w.indexOf(':', at); if (bad == "\t") ++at; w.insert(int(g.u(uint32_t(at), uint32_t(colon))), bad); } what = "byte " + num(uchar(bad.at(0))) + " in a name"; break; }
	case 3: { int at = w.toLower().indexOf("\r\ncontent-length:") + 17; int e = w.indexOf("\r\n", at); what = g.chance(1, 2) ? tooLong(g, 10) : g.pickB({"x", "1x", "0x10", "-1", "+1", "5,6", "1.0", "1e3", ";", "\"5\""}); w.replace(at, e - at, " " + what); what = "length " + what; break; }
	case 4: { what = g.chance(1, 2) ? tooLong(g, 16) : g.pickB({"", "g", "-1", "+1", "0x5", "5x", ".", "z\r\n", "\n"}); int e = head; while (e < w.size() && isxdigit(uchar(w.at(e)))) ++e; w.replace(head, e - head, what); what = "chunk size " + what; break; }
	case 5: { int e = w.indexOf("\r\n", head); bool okay = false; int n = QByteArray(w.mid(head, e - head)).split(';').first().trimmed().toInt(&okay, 16), at = e + 2 + n; if (g.chance(1, 2)) { QByteArray x(1, char(g.u(0, 255))); if (x == "\r") x = "x"; w.insert(at, x); what = "data beyond a chunk"; } else { w.remove(at, int(g.u(1, 2))); what = "no line break after a chunk"; } break; }
	case 6: { int last = w.size() - 1; if (m.framing == Msg::NoBody || g.chance(1, 3)) last = head - 1; w.truncate(int(g.u(1, uint32_t(last)))); eof = true; what = "cut at " + num(w.size()) + " of " + num(m.wire().size()); break; }
	default: w.insert(int(g.u(uint32_t(line + 2), uint32_t(head - 2))), ""); w.insert(line + 2, "X: " + QByteArray(82000, 'a') + "\r\n"); what = "head of more than 80 KiB";
	}
	static const char* kinds[] = {"broken version", "broken status", "broken header name", "broken length", "broken chunk size", "broken chunk", "cut short", "head too long"}; c.label(kinds[kind]);
	return w;
}

// Every byte that does not belong at one position of a response whose meaning is strict there.
void sweep16(Gen& g, Ctx& c)
{
	MsgOpts o; o.blanks = true; Msg m; int kind = int(g.weighted({3, 3, 3, 2, 2, 2}));
	for (int k = 0;; ++k) { m = genMsg(g, o); if (kind <= 1 ? m.framing == Msg::Chunked : kind == 2 ? m.framing == Msg::Length : true) break; if (k == 30) { kind = 3; break; } }
	const QByteArray w = m.wire(); const int head = m.headWire.size(); int at = 0; QByteArray fine, what;
	switch (kind)
	{
	case 0: at = head; fine = "0123456789abcdefABCDEF"; what = "first digit of a chunk size"; break;
	case 1: { int e = head; while (isxdigit(uchar(w.at(e)))) ++e; at = int(g.u(uint32_t(head + 1), uint32_t(e))); fine = "0123456789abcdefABCDEF ;\r\t"; what = "in a chunk size"; break; }
	case 2: { at = w.toLower().indexOf("\r\ncontent-length:") + 17; while (!isdigit(uchar(w.at(at)))) ++at; int e = at; while (isdigit(uchar(w.at(e)))) ++e; at = int(g.u(uint32_t(at), uint32_t(e - 1))); fine = "0123456789 \r\n\t"; what = "in a Content-Length"; break; }
	case 3: at = int(g.u(0, 4)); fine = QByteArray(1, w.at(at)); what = "in HTTP/"; break;
	case 4: at = 5; while (at < m.version.size() && g.chance(1, 2)) ++at; if (at >= m.version.size()) at = 5; if (w.at(at) == '.') { fine = "0123456789."; what = "dot of the version"; } else { fine = "0123456789.\x20"; what = "digit of the version"; } break;
	default: at = m.version.size() + 1 + int(g.u(0, 2)); fine = "0123456789 \r\n"; what = "in the status"; break;
	}
	c.desc("each byte " + what + ", at " + num(at) + " of " + show(w, 200)); c.label("every byte at one position"); c.nontrivial();
	bool cutThere = g.chance(1, 2);
	for (int b = 0; b < 256 && !c.failed(); ++b)
	{
		if (fine.contains(char(b))) continue;
		QByteArray x = w; x[at] = char(b); Parser p; QVector<QByteArray> pieces; if (cutThere && at > 0) pieces << x.left(at) << x.mid(at); else pieces << x;
		Outcome r = feed(c, p, pieces, false); if (c.failed()) return;
		c.check(r.error && r.done.isEmpty(), "byte", "byte " + num(b) + " " + what + (r.done.isEmpty() ? " was not refused" : " was taken as a complete response"));
	}
}

void c16(Gen& g, Ctx& c)
{
	if (g.chance(1, 60)) { sweep16(g, c); return; }
	Parser p;
	// History: whatever the parser went through before, ended by clear().
	if (g.chance(1, 3))
	{
		for (int k = int(g.u(1, 3)); k > 0; --k)
		{
			QByteArray w = wires(genMsgs(g, 2)); if (g.chance(2, 3)) w = mutate(g, w);
			if (g.chance(1, 3)) p.arm(Parser::Clear, int(g.u(0, 6)));
			feed(c, p, cutWithEmpty(g, w), g.chance(1, 3)); p.arm(Parser::None, -1); p.clear();
			if (c.failed()) return;
			if (p.hasError() || !p.headers().isEmpty() || !p.content().isEmpty() || p.isParsing()) { c.fail("clear", "the parser is not in its initial state after clear()"); return; }
			c.desc("history(" + num(w.size()) + ") "); c.label("after a history and clear()");
		}
	}
	switch (g.weighted({5, 6, 4, 3}))
	{
	case 3: // A response that is to be refused, after valid ones.
	{
		QVector<Msg> v; QByteArray w; for (int n = int(g.u(0, 2)); n > 0; --n) { MsgOpts mo; mo.eof = mo.close = false; mo.blanks = true; v << genMsg(g, mo); w += v.last().wire(); }
		bool eof = g.chance(1, 4); QByteArray what; w += genBroken(g, c, eof, what); c.nontrivial(); c.desc(what + " after " + num(v.size()) + " responses" + (eof ? " + eof" : "") + ": \"" + show(w, 300) + "\"");
		Outcome o = feed(c, p, g.cut(w, 40), eof); if (c.failed()) return;
		if (o.done.size() > v.size()) { c.fail("broken", "a response with " + what + " was taken as complete: " + showRec(o.done.last())); return; }
		if (!o.error) { c.fail("broken", "a response with " + what + " was not refused"); return; }
		o.error = false; expectMsgs(c, v, o, "before a broken response"); break;
	}
	case 0: // Valid responses in a row.
	{
		QVector<Msg> v = genMsgs(g, 3); QByteArray w = wires(v); bool eof = v.last().needsEof || g.chance(1, 3);
		for (const Msg& m : v) { c.desc(m.text() + "; "); if (m.framing == Msg::Chunked) c.label("chunked"); if (!m.trailers.isEmpty()) c.label("trailers"); if (m.needsEof) c.label("until eof"); if (bodilessStatus(m.status)) c.label("bodiless status"); if (hasHeader(m.headers, "upgrade")) c.label("upgrade header"); }
		QVector<QByteArray> pieces = cutWithEmpty(g, w);
		if (pieces.size() > 1 || v.size() > 1) c.nontrivial();
		if (pieces.size() > 1) c.label("segmented"); if (v.size() > 1) c.label("several responses");
		Outcome o = feed(c, p, pieces, eof); if (c.failed()) return;
		expectMsgs(c, v, o, "cut into " + num(pieces.size()));
		if (c.failed()) return;
		// Beyond the end of a response that closes, data is refused; otherwise the next response follows.
		if (!v.last().needsEof && g.chance(1, 3))
		{
			QVector<Msg> v2 = genMsgs(g, 1); bool keep = v.last().keepAlive; Parser f; bool clear = g.chance(1, 2) || !keep; if (clear) p.clear();
			if (!keep) c.label("clear() after a closing response");
			Outcome a = feed(c, p, g.cut(wires(v2), 40), v2.last().needsEof); if (c.failed()) return;
			expectMsgs(c, v2, a, clear ? "after clear()" : "after completion");
		}
		break;
	}
	case 1: // Any stream, cut in different ways.
	{
		QByteArray w = wires(genMsgs(g, 3));
		switch (g.weighted({8, 1, 1})) { case 0: w = mutate(g, w); break; case 1: w = g.bytes(g.size(200)); break; default: w = g.chars(g.size(60), "HTP/1.0 2\r\n:ab5;X"); }
		if (g.chance(1, 150)) w.insert(int(g.u(0, uint32_t(w.size()))), QByteArray(int(g.u(81000, 82500)), 'a'));
		bool eof = g.chance(1, 2);
		Parser whole; Outcome a = feed(c, whole, w.isEmpty() ? QVector<QByteArray>() : QVector<QByteArray>() << w, eof); if (c.failed()) return;
		Outcome b = feed(c, p, cutWithEmpty(g, w), eof); if (c.failed()) return;
		c.desc("stream of " + num(w.size()) + (eof ? " + eof" : "") + ": \"" + show(w, 200) + "\"");
		if (a.error) c.label("error"); else c.label("no error");
		if (!a.done.isEmpty()) c.label("complete response in a mutated stream");
		c.nontrivial();
		sameOutcome(c, a, b, "whole or cut"); if (c.failed()) return;
		if (w.size() < 2000)
		{
			Parser q; QVector<QByteArray> bytes; for (int i = 0; i < w.size(); ++i) bytes << w.mid(i, 1);
			sameOutcome(c, a, feed(c, q, bytes, eof), "whole or byte by byte");
		}
		if (c.failed()) return;
		if (a.error && p.inject("HTTP/1.1 200 OK\r\n\r\n") != 0) { c.fail("error", "data was consumed after an error"); return; }
		p.clear(); QVector<Msg> v2 = genMsgs(g, 2);
		expectMsgs(c, v2, feed(c, p, g.cut(wires(v2), 40), v2.last().needsEof), "after clear()");
		break;
	}
	default: // Pausing or clearing in a callback.
	{
		QVector<Msg> v = genMsgs(g, 2); QByteArray w = wires(v); bool clear = g.chance(1, 3);
		int rounds = clear ? 1 : int(g.u(1, 3)); c.nontrivial(); c.label(clear ? "cleared in a callback" : "paused in a callback");
		p.arm(clear ? Parser::Clear : Parser::Pause, int(g.u(0, 12))); (void)rounds;
		c.desc((clear ? "clear() in callback " : "pause() in callback ") + num(p.actAt) + " of ");
		for (const Msg& m : v) c.desc(m.text() + "; ");
		QVector<QByteArray> pieces = g.cut(w, 40);
		Outcome o = feed(c, p, pieces, v.last().needsEof); if (c.failed()) return;
		if (p.acted) c.label(clear ? "clear hit" : "pause hit");
		if (!clear || !p.acted) { expectMsgs(c, v, o, "with a pause"); }
		else
		{
			if (p.lateCallback) { c.fail("clear", "callbacks went on after clear()"); return; }
			if (p.hasError() || !p.headers().isEmpty() || !p.content().isEmpty()) { c.fail("clear", "the parser is not in its initial state after clear() in a callback: error " + num(p.error()) + " " + showHdrs(toHdrs(p.headers()))); return; }
		}
		p.arm(Parser::None, -1); p.lateCallback = false;
		if (!clear || !p.acted) p.clear();
		QVector<Msg> v2 = genMsgs(g, 2);
		if (!c.failed()) expectMsgs(c, v2, feed(c, p, g.cut(wires(v2), 40), v2.last().needsEof), "after a pause or clear");
	}
	}
}

//
// C22
//
typedef QVector<HttpHeader> HV;
Hdrs hdrsOf(const HV& v) { Hdrs r; for (int i = 0; i < v.size(); ++i) r << Hdr(v.at(i).first, v.at(i).second); return r; }

QByteArray varyCase(Gen& g, const QByteArray& s) { QByteArray r = s; for (int i = 0; i < r.size(); ++i) if (g.chance(1, 3)) { char x = r.at(i); if (x >= 'a' && x <= 'z') r[i] = x - 32; else if (x >= 'A' && x <= 'Z') r[i] = x + 32; } return r; }
QByteArray text(Gen& g, int max) { static const QByteArray a("aAbBzZ@[`{-:0 \xc3\xa9\xe1"); return g.chance(1, 8) ? g.bytes(g.size(uint32_t(max))) : g.chars(g.size(uint32_t(max)), a); }
bool share(Gen& g) { return g.chance(1, 3); }

void headersLaws(Gen& g, Ctx& c)
{
	c.label("header collections");
	QVector<QByteArray> names; for (int i = int(g.u(1, 4)); i > 0; --i) names << text(g, 8);
	HttpHeaderCollection coll[3]; Hdrs model[3]; QVector<HttpHeaderCollection> copies; QVector<Hdrs> copyModels;
	int ops = int(g.u(1, 14));
	auto header = [&](Hdr& h) { h = Hdr(varyCase(g, g.pick(names.toStdVector())), text(g, 10)); return HttpHeader(h.first, h.second); };
	for (int k = 0; k < ops && !c.failed(); ++k)
	{
		int i = int(g.u(0, 2)), j = int(g.u(0, 2)); Hdr h; QByteArray op;
		switch (g.weighted({5, 4, 2, 2, 2, 1, 1, 1}))
		{
		case 0: { HttpHeader x = header(h); if (g.chance(1, 2)) coll[i] << x; else coll[i] += x; model[i] << h; op = "append"; break; }
		case 1: if (i == j) c.label("appended to itself"); if (g.chance(1, 2)) coll[i] << coll[j]; else coll[i] += coll[j]; model[i] += Hdrs(model[j]); op = "append collection " + num(j); break;
		case 2: { HV v; Hdrs m; for (int n = int(g.u(0, 4)); n > 0; --n) { v << header(h); m << h; } coll[i] += v; model[i] += m; op = "append vector"; break; }
		case 3: { HttpHeaderCollection s = coll[i] + coll[j]; Hdrs m = model[i] + model[j]; c.eq(showHdrs(toHdrs(s)), showHdrs(m), "a + b"); op = "plus"; if (g.chance(1, 2)) { coll[i] = s; model[i] = m; } break; }
		case 4: coll[i] = coll[j]; model[i] = model[j]; op = "assign"; break;
		case 5: copies << coll[i]; copyModels << model[i]; op = "copy"; break;
		case 6: if (!model[i].isEmpty()) { int n = int(g.u(0, uint32_t(model[i].size() - 1))); Hdr e = model[i].at(n); if (g.chance(1, 2)) coll[i] << coll[i].at(n); else coll[i] += coll[i].at(n); model[i] << e; op = "append own element"; } break;
		default: { HV& base = coll[i]; Hdrs m = model[j]; coll[i] += static_cast<const HV&>(coll[j]); model[i] += m; (void)base; op = "append sliced"; }
		}
		c.desc(op + " to " + num(i) + "; ");
		if (model[i].size() > 400) break;
		for (int n = 0; n < 3; ++n) if (toHdrs(coll[n]) != model[n]) { c.fail("append", "after " + op + " collection " + num(n) + " is " + showHdrs(toHdrs(coll[n])) + ", expected " + showHdrs(model[n])); return; }
		for (int n = 0; n < copies.size(); ++n) if (toHdrs(copies.at(n)) != copyModels.at(n)) { c.fail("shared", "after " + op + " an earlier copy changed"); return; }
	}
	if (ops > 2) c.nontrivial();
	// Lookups.
	const HttpHeaderCollection& h = coll[g.u(0, 2)]; const Hdrs m = toHdrs(h);
	for (int k = 0; k < 4 && !c.failed(); ++k)
	{
		QByteArray name = varyCase(g, g.chance(4, 5) ? names.at(int(g.u(0, uint32_t(names.size() - 1)))) : text(g, 8));
		QByteArray first; QVector<QByteArray> all; bool found = false;
		for (const Hdr& x : m) if (ieq(x.first, name)) { if (!found) first = x.second; found = true; all << x.second; }
		c.eq(h.getFieldValue(name), first, "getFieldValue(\"" + show(name) + "\")");
		if (!found && !h.getFieldValue(name).isNull()) c.fail("lookup", "a missing header is not null");
		c.eq(h.getFieldValue(name.constData(), name.size()), first, "getFieldValue(ptr)");
		if (h.getFieldValues(name) != all) c.fail("lookup", "getFieldValues(\"" + show(name) + "\") returned " + num(h.getFieldValues(name).size()) + " values, expected " + num(all.size()));
		QByteArray value = !all.isEmpty() && g.chance(2, 3) ? varyCase(g, all.at(int(g.u(0, uint32_t(all.size() - 1))))) : text(g, 6);
		bool has = false; for (const QByteArray& x : all) if (ieq(x, value)) has = true;
		if (has) c.label("value found"); if (all.size() > 1) c.label("several values of a name");
		if (h.testFieldValue(name, value) != has || h.testFieldValue(name.constData(), name.size(), value.constData(), value.size()) != has) c.fail("lookup", "testFieldValue(\"" + show(name) + "\", \"" + show(value) + "\") is not " + num(has));
	}
	// The overloads for literals and tokens.
	if (g.chance(1, 3))
	{
		HttpHeaderCollection t = h; Hdrs mt = m; Hdr x(varyCase(g, "content-length"), text(g, 6)); int at = int(g.u(0, uint32_t(m.size()))); t.insert(at, HttpHeader(x.first, x.second)); mt.insert(at, x);
		if (g.chance(1, 2)) { Hdr y(varyCase(g, "connection"), varyCase(g, g.pickB({"close", "keep-alive", "clos", "closee"}))); t << HttpHeader(y.first, y.second); mt << y; }
		c.eq(t.getFieldValue("Content-length"), x.second, "getFieldValue(literal)"); c.eq(t.getFieldValue(LowerCaseToken("content-length")), x.second, "getFieldValue(LowerCaseToken)"); c.eq(t.getFieldValue(Token("CONTENT-Length")), x.second, "getFieldValue(Token)");
		if (t.getFieldValues("CONTENT-length") != QVector<QByteArray>() << x.second) c.fail("lookup", "getFieldValues(literal)");
		bool close = ieq(headerValue(mt, "connection"), "close");
		if (t.testFieldValue("connection", "close") != close || t.testFieldValue(LowerCaseToken("connection"), LowerCaseToken("close")) != close || t.testFieldValue(LowerCaseToken("connection"), "CLOSE") != close || t.testFieldValue("CONNECTION", LowerCaseToken("close")) != close || t.testFieldValue(Token("Connection"), Token("cLOSE")) != close) c.fail("lookup", "testFieldValue() of literals and tokens disagrees with the reference");
	}
}

template <int N> HttpHeader rawOf(const QByteArray& s) { char b[N + 1]; memcpy(b, s.constData(), N); b[N] = 0; const char (&r)[N + 1] = b; return HttpHeader(r); }
template <int N> struct Raw { static HttpHeader of(const QByteArray& s) { return s.size() == N ? rawOf<N>(s) : Raw<N - 1>::of(s); } };
template <> struct Raw<0> { static HttpHeader of(const QByteArray& s) { return rawOf<0>(s); } };
template <int N, int M> HttpHeader pairOf(const QByteArray& a, const QByteArray& b) { char x[N + 1], y[M + 1]; memcpy(x, a.constData(), N); memcpy(y, b.constData(), M); x[N] = y[M] = 0; const char (&rx)[N + 1] = x; const char (&ry)[M + 1] = y; return HttpHeader(rx, ry); }

void rawHeader(Gen& g, Ctx& c)
{
	c.label("raw headers"); c.nontrivial();
	static const QByteArray a(": aB:-\t\0x", 9);
	QByteArray s = g.chars(g.size(40), a); if (g.chance(1, 3)) { s.truncate(30); s = g.chars(g.u(0, 6), "abC-") + ":" + QByteArray(int(g.u(0, 3)), ' ') + s; s.truncate(40); }
	c.desc("raw \"" + show(s) + "\"");
	QByteArray name, value; int colon = s.indexOf(':');
	if (colon < 0) name = s; else { name = s.left(colon); value = s.mid(colon + 1); while (value.startsWith(' ')) value.remove(0, 1); }
	HttpHeader h = Raw<40>::of(s);
	if (h.first != name || h.second != value) c.fail("raw", "\"" + show(s) + "\" became \"" + show(h.first) + "\", \"" + show(h.second) + "\"");
	QByteArray x = g.chars(5, a), y = g.chars(7, a); HttpHeader p = pairOf<5, 7>(x, y);
	if (p.first != x || p.second != y) c.fail("raw", "header of two literals");
	HttpHeader q; q = QPair<QByteArray, QByteArray>(x, y); HttpHeader r(q), t(QPair<QByteArray, QByteArray>(y, x)); const QPair<QByteArray, QByteArray>& asPair = q;
	if (!(q == p) || q != r || asPair.first != x || asPair.second != y || t.first != y || (x != y) != (t != q)) c.fail("raw", "copies and comparisons of headers");
}

template <typename T> QByteArray refNumber(T n, int base)
{
	__int128 v = n; bool neg = v < 0; if (neg) v = -v; QByteArray r;
	do { r.prepend("0123456789abcdef"[int(v % base)]); v /= base; } while (v);
	return neg ? "-" + r : r;
}
template <typename T> T someNumber(Gen& g)
{
	typedef std::numeric_limits<T> L; uint64_t b = (uint64_t(g.u(0, 0xffffffffu)) << 32) | g.u(0, 0xffffffffu);
	switch (g.weighted({3, 3, 2, 3}))
	{
	case 0: return T(g.u(0, 100)); case 1: return T(b >> g.u(0, 63)); case 2: return g.chance(1, 2) ? T(L::max() - T(g.u(0, 3))) : T(L::min() + T(g.u(0, 3)));
	default: { T p = 1; int base = g.chance(1, 2) ? 10 : 16; for (int k = int(g.u(0, 18)); k > 0 && p <= L::max() / base; --k) p *= base; p = T(p + (g.chance(1, 2) ? -1 : 0)); return L::is_signed && g.chance(1, 3) ? T(-p) : p; }
	}
}
template <typename T> void numberLaw(Gen& g, Ctx& c, const char* type)
{
	T n = someNumber<T>(g); QByteArray start = text(g, 8); QByteArray shared = start; QByteArray a = start, b = start; if (!share(g)) { a.detach(); b.detach(); }
	ByteArrayHelpers::appendNumber<T, 10>(a, n); c.eq(a, start + refNumber(n, 10), QByteArray("appendNumber<") + type + ", 10>");
	ByteArrayHelpers::appendNumber<T, 16>(b, n); c.eq(b, start + refNumber(n, 16), QByteArray("appendNumber<") + type + ", 16>");
	c.eq(shared, start, "the shared source of appendNumber"); c.desc("number " + refNumber(n, 10));
	if (n < 0) c.label("negative number"); if (n == std::numeric_limits<T>::min()) c.label("smallest number of a type");
}

void compareLaw(Gen& g, Ctx& c)
{
	c.label("comparisons"); c.nontrivial();
	QByteArray a = text(g, 12), b = g.chance(2, 3) ? varyCase(g, a) : text(g, 12);
	if (!b.isEmpty() && g.chance(1, 3)) { int i = int(g.u(0, uint32_t(b.size() - 1))); b[i] = char(b.at(i) ^ (g.chance(1, 2) ? 32 : 1 << g.u(0, 7))); }
	bool e = ieq(a, b); c.label(e ? "equal" : "different"); c.desc("\"" + show(a) + "\" ~ \"" + show(b) + "\"");
	if (ByteArrayHelpers::asciiEqualsCaseInsensitive(a, b) != e || ByteArrayHelpers::asciiEqualsCaseInsensitive(a.constData(), a.size(), b.constData(), b.size()) != e || ByteArrayHelpers::asciiEqualsCaseInsensitive(b, a) != e) c.fail("compare", "\"" + show(a) + "\" and \"" + show(b) + "\" compare " + num(!e));
	// Against literals.
	QByteArray lit = g.pickB({"content-length", "a", "z{", "@[`", ""}); QByteArray x = g.chance(2, 3) ? varyCase(g, lit) : text(g, 14); if (!x.isEmpty() && g.chance(1, 3)) { int i = int(g.u(0, uint32_t(x.size() - 1))); x[i] = char(x.at(i) ^ (g.chance(1, 2) ? 32 : 1 << g.u(0, 7))); }
	bool l = ieq(x, lit), r[3];
#define LIT(s) if (lit == s) { r[0] = ByteArrayHelpers::asciiEqualsCaseInsensitive(x, Token(s)); r[1] = ByteArrayHelpers::asciiEqualsCaseInsensitive(x, LowerCaseToken(s)); r[2] = ByteArrayHelpers::asciiEqualsCaseInsensitive(x, QLatin1Literal(s)); }
	LIT("content-length") LIT("a") LIT("z{") LIT("@[`") LIT("")
	if (r[0] != l || r[1] != l || r[2] != l) c.fail("compare", "\"" + show(x) + "\" compared with the literal \"" + lit + "\": " + num(r[0]) + num(r[1]) + num(r[2]) + ", expected " + num(l));
}

void decodeLaw(Gen& g, Ctx& c)
{
	c.label("percent-decoding"); c.nontrivial();
	static const QByteArray a("%%%0129aAfFgGz+ \xc3\xa9");
	int n = g.chance(1, 4) ? int(g.u(1015, 1035)) : int(g.size(60)); QByteArray s = n > 200 ? g.chars(20, a) : g.chars(n, a); if (n > 200) { QByteArray fill = g.chars(8, a); QByteArray r; while (r.size() + s.size() < n) r += fill; r.truncate(n - s.size()); s = g.chance(1, 2) ? s + r : r + s; c.label("around 1024 bytes"); }
	QByteArray d = refPercentDecode(s); QString e = QString::fromUtf8(d.constData(), d.size()); c.desc("decode \"" + show(s, 120) + "\"");
	QByteArray copy = s; QByteArray keep(s.constData(), s.size());
	if (ByteArrayHelpers::percentDecode(s) != e) c.fail("decode", "percentDecode(\"" + show(s) + "\")");
	if (ByteArrayHelpers::percentDecode(s.constData(), s.size()) != e) c.fail("decode", "percentDecode(ptr, \"" + show(s) + "\")");
	if (s != keep || copy != keep) c.fail("shared", "percentDecode() altered its argument");
	std::unique_ptr<char[]> b(new char[s.size() + 0]); memcpy(b.get(), s.constData(), s.size()); int m = ByteArrayHelpers::percentDecodeInPlace(b.get(), s.size());
	if (QByteArray(b.get(), m) != d) c.fail("decode", "percentDecodeInPlace(\"" + show(s) + "\")");
	char h = char(g.u(0, 255)); int v = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : 0;
	if (ByteArrayHelpers::unhex(h) != v) c.fail("decode", "unhex(" + num((unsigned char)h) + ")");
}

void statusLaw(Gen& g, Ctx& c)
{
	c.label("status texts"); int s = g.chance(3, 4) ? int(g.u(0, 700)) : int(g.u(0, 0xffffffffu)); c.desc("status " + num(s));
	QByteArray e = refReason(s); const char* m = HttpProtocol::StatusCodes::getStatusMessage(s); const char* cm = HttpProtocol::StatusCodes::getStatusCodeAndMessage(s);
	if ((m == 0) != e.isEmpty() || (cm == 0) != e.isEmpty()) { c.fail("status", "status " + num(s)); return; }
	if (m) { c.nontrivial(); c.eq(m, e, "getStatusMessage"); c.eq(cm, num(s) + " " + e, "getStatusCodeAndMessage"); }
}

void mimeLaw(Gen& g, Ctx& c)
{
	c.label("MIME types"); c.nontrivial();
	static const char* t[][2] = {{".html", "text/html"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".png", "image/png"}, {".gif", "image/gif"}, {".css", "text/css"}, {".js", "text/javascript"}, {".xml", "text/xml"}};
	QByteArray n = g.chars(g.size(12), "aZ./-_ 9\xc3\xa9"); if (g.chance(1, 6)) n += g.pickB({".html", ".js", ".png"}); QByteArray ext = g.chance(1, 5) ? g.pickB({"", ".", ".htm", ".jso", "html", ".js.", ".xmlx", ".jpe", "js", ".htmlx", ".svg", ".jpgg"}) : QByteArray(t[g.u(0, 7)][0]); n += varyCase(g, ext);
	QByteArray e = "application/octet-stream"; for (auto& x : t) { QByteArray s = x[0]; if (n.size() >= s.size() && asciiLower(n.right(s.size())) == s) e = x[1]; }
	c.desc("\"" + show(n) + "\""); c.eq(HttpMimeHelper::getMimeTypeForFilename(QString::fromUtf8(n)), e, "type of \"" + show(n) + "\"");
}

void dateLaw(Gen& g, Ctx& c)
{
	c.label("dates"); c.nontrivial();
	// Seconds in the years 1000 to 9999.
	long long s = -30610224000LL + (long long)((((unsigned long long)g.u(0, 0xffffffffu)) << 32 | g.u(0, 0xffffffffu)) % 284012524800ULL);
	if (g.chance(1, 3)) s = (long long)g.u(0, 2000000000u); if (g.chance(1, 5)) s -= s % 86400; else if (g.chance(1, 5)) s += 86399 - ((s % 86400) + 86400) % 86400; if (g.chance(1, 8)) { int y = int(g.u(1001, 9998)); s = QDateTime(QDate(y, g.chance(1, 2) ? 2 : 12, 28), QTime(23, 59, 59), Qt::UTC).toSecsSinceEpoch() + g.u(0, 4 * 86400); }
	int ms = int(g.u(0, 999)); QDateTime d;
	switch (g.weighted({2, 2, 2, 2}))
	{
	case 0: d = QDateTime::fromMSecsSinceEpoch(s * 1000 + ms, Qt::UTC); break;
	case 1: d = QDateTime::fromMSecsSinceEpoch(s * 1000 + ms, Qt::OffsetFromUTC, int(g.u(0, 28)) * 1800 - 14 * 1800); c.label("offset from UTC"); break;
	case 2: d = QDateTime::fromMSecsSinceEpoch(s * 1000 + ms, QTimeZone(int(g.u(0, 26)) * 3600 - 13 * 3600)); break;
	default: d = QDateTime::fromMSecsSinceEpoch(s * 1000 + ms, Qt::LocalTime);
	}
	// The civil date, computed from the day number.
	long long days = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), rem = s - days * 86400; int wd = int(((days % 7) + 11) % 7); // 1970-01-01 was a Thursday.
	long long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, mm = mp < 10 ? mp + 3 : mp - 9; long long y = (long long)yoe + era * 400 + (mm <= 2);
	static const char* wds[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* ms12[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	char e[64]; snprintf(e, sizeof e, "%s, %02u %s %04lld %02lld:%02lld:%02lld GMT", wds[wd], dd, ms12[mm - 1], y, rem / 3600, rem / 60 % 60, rem % 60);
	QDateTime copy = d; c.desc(e); c.eq(HttpProtocol::Dates::getHttpDate(d), e, "HTTP date"); if (copy != d) c.fail("shared", "getHttpDate() altered its argument");
}

void c22(Gen& g, Ctx& c)
{
	switch (g.weighted({8, 3, 4, 4, 4, 1, 2, 3}))
	{
	case 0: headersLaws(g, c); break; case 1: rawHeader(g, c); break;
	case 2: c.label("numbers"); c.nontrivial();
		switch (g.u(0, 5)) { case 0: numberLaw<int>(g, c, "int"); break; case 1: numberLaw<unsigned>(g, c, "unsigned"); break; case 2: numberLaw<qint64>(g, c, "qint64"); break; case 3: numberLaw<quint64>(g, c, "quint64"); break; case 4: numberLaw<qint16>(g, c, "qint16"); break; default: numberLaw<quint16>(g, c, "quint16"); }
		break;
	case 3: compareLaw(g, c); break; case 4: decodeLaw(g, c); break; case 5: statusLaw(g, c); break; case 6: mimeLaw(g, c); break;
	default: dateLaw(g, c);
	}
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C16", "Streams of one to three generated responses (every framing, trailers, chunk extensions, bodiless statuses, odd spacing), valid or mutated (edits, insertions from a dictionary, truncation, duplication) or random, cut into pieces at random, with and without end-of-stream, on a fresh parser or one with a history of streams ended by clear(); pause() or clear() in the n-th callback; every byte that does not belong at one position of a chunk size, length, version or status. Valid streams are compared with what was generated; all others between whole, cut and byte-by-byte feeding. Non-trivial: more than one piece or response, a mutated stream, or a pause or clear.",
			500000, 15000000, c16, 40, 7, {"The headers of a head that never completes, and the content of a response that ends in a parse error, are not compared.", "Connection values that are lists, folded headers, several Transfer-Encodings and trailing blanks in values are only compared between ways of feeding."}, {"chunked", "trailers", "until eof", "bodiless status", "upgrade header", "segmented", "several responses", "after a history and clear()", "error", "no error", "complete response in a mutated stream", "pause hit", "clear hit", "clear() after a closing response", "every byte at one position"}},
		{"C22", "Random sequences of operations on three header collections (append of headers, collections, vectors, itself, own elements; assignment; sum; copies) against a list model, followed by lookups in varied case through every overload; raw header strings of every length up to 40; numbers of six integer types biased to the limits and powers of the base; pairs of strings one edit or case change apart; percent-decoding around the 1024-byte fast path; every status; file names; dates of the years 1000-9999 in four time specifications. Non-trivial: more than two operations, or any helper case.",
			2500000, 60000000, c22, 40, 7, {"Dates are valid and between the years 1000 and 9999."}, {"header collections", "appended to itself", "several values of a name", "value found", "raw headers", "numbers", "negative number", "smallest number of a type", "comparisons", "equal", "different", "percent-decoding", "around 1024 bytes", "status texts", "MIME types", "dates", "offset from UTC"}},
	};
	return pbt::main(argc, argv, checks);
}
