// C20 replies of the network access manager.
#include "respgen.h"
#include "netsupport.h"
#include "HttpClient.h"
#include <QtNetwork/QNetworkReply>
#include <QtNetwork/QNetworkCookie>
#include <QtNetwork/QNetworkCookieJar>
#include <QtCore/QPointer>
#include <QtCore/QBuffer>

using namespace Pillow;

namespace {

struct Op {
	enum Kind { Complete, Truncated, Garbage, Refused, Hang } kind; enum Abort { None, AtOnce, Later, OnHeaders, OnContent } abort; enum Reading { AllNow, Pieces, AtEnd, Raw } reading;
	int server; QByteArray method, data; Target target; Hdrs headers; Msg msg; SAns ans; bool fromHandler, dropped, custom, asDevice; int abortAfter, piece, cut; QByteArray part; QList<QNetworkCookie> cookies; QByteArray location; bool hasLocation; QByteArray path, cookieHeader; bool issued;
	// Observed.
	QPointer<QNetworkReply> reply; int finished, managerFinished, metas, reads; QVector<int> errors; QByteArray taken; bool aborted, errorFirst, readBeforeMeta, finishedEarly, endEarly; int status, error; QUrl redirect; QList<QPair<QByteArray, QByteArray> > raw; QByteArray jarRaw;
	Op() : kind(Complete), abort(None), reading(AllNow), server(0), fromHandler(false), dropped(false), custom(false), asDevice(false), abortAfter(0), piece(1), cut(0), hasLocation(false), issued(false), finished(0), managerFinished(0), metas(0), reads(0), aborted(false), errorFirst(true), readBeforeMeta(false), finishedEarly(false), endEarly(false), status(-1), error(-1) {}
	bool done() const { return finished > 0 || dropped; }
};

struct World : QObject {
	RawServer servers[2]; QScopedPointer<NetworkAccessManager> nam; QNetworkCookieJar ref; QVector<Op> ops; QByteArray dead; int outstanding[2], most[2];
	World() { outstanding[0] = outstanding[1] = most[0] = most[1] = 0; nam.reset(new NetworkAccessManager); QObject::connect(nam.data(), &QNetworkAccessManager::finished, this, [this](QNetworkReply* r) { for (Op& o : ops) if (o.reply == r) ++o.managerFinished; }); }
	QUrl url(const Op& o) const { return QUrl::fromEncoded(o.target.url("http://" + (o.kind == Op::Refused ? dead : servers[o.server].authority()))); }
	void doAbort(int i) { Op& o = ops[i]; if (!o.reply) return; if (!o.finished) o.aborted = true; o.reply->abort(); }
	void take(int i)
	{
		Op& o = ops[i]; QNetworkReply* r = o.reply; if (!r) return;
		switch (o.reading)
		{
		case Op::AllNow: o.taken += r->readAll(); break;
		case Op::Pieces: while (r->bytesAvailable() > 0) { QByteArray d = r->read(o.piece); if (d.isEmpty()) break; o.taken += d; } break;
		case Op::Raw: { char b[700]; for (;;) { qint64 n = r->read(b, qMin(o.piece, int(sizeof b))); if (n < 0 && !r->isFinished()) o.endEarly = true; if (n <= 0) break; o.taken.append(b, int(n)); } break; }
		default: break;
		}
	}
	void issue(int i)
	{
		Op& o = ops[i]; if (o.issued) return; o.issued = true; QNetworkRequest q(url(o)); for (const Hdr& h : o.headers) q.setRawHeader(h.first, h.second);
		{ QList<QByteArray> c; for (const QNetworkCookie& k : ref.cookiesForUrl(q.url())) c << k.toRawForm(QNetworkCookie::NameAndValueOnly); o.cookieHeader = c.join("; "); }
		if (o.kind != Op::Refused) { ++outstanding[o.server]; most[o.server] = qMax(most[o.server], outstanding[o.server]); }
		QNetworkReply* r; QBuffer* b = 0; if (o.asDevice) { b = new QBuffer; b->setData(o.data); b->open(QIODevice::ReadOnly); }
		if (o.custom) r = b ? nam->sendCustomRequest(q, o.method, b) : nam->sendCustomRequest(q, o.method, o.data);
		else if (o.method == "GET") r = nam->get(q); else if (o.method == "HEAD") r = nam->head(q); else if (o.method == "DELETE") r = nam->deleteResource(q);
		else if (o.method == "PUT") r = b ? nam->put(q, b) : nam->put(q, o.data); else r = b ? nam->post(q, b) : nam->post(q, o.data);
		if (b) b->setParent(r);
		ops[i].reply = r;
		QObject::connect(r, &QNetworkReply::metaDataChanged, this, [this, i, r]() { Op& o = ops[i]; ++o.metas; o.status = r->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt(); o.redirect = r->attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl(); o.raw = r->rawHeaderPairs(); if (r->isFinished()) o.finishedEarly = true;
			if (o.metas == 1) { QUrl u = r->request().url(); u.setPath("/"); QList<QNetworkCookie> c; for (const Hdr& h : o.msg.headers) if (ieq(h.first, "set-cookie")) c += QNetworkCookie::parseCookies(h.second); ref.setCookiesFromUrl(c, u); }
			if (o.abort == Op::OnHeaders) doAbort(i); });
		QObject::connect(r, &QNetworkReply::readyRead, this, [this, i, r]() { Op& o = ops[i]; ++o.reads; if (!o.metas) o.readBeforeMeta = true; if (r->isFinished()) o.finishedEarly = true; take(i); if (o.abort == Op::OnContent && o.reads > o.abortAfter) doAbort(i); });
		QObject::connect(r, static_cast<void (QNetworkReply::*)(QNetworkReply::NetworkError)>(&QNetworkReply::error), this, [this, i](QNetworkReply::NetworkError e) { Op& o = ops[i]; o.errors << int(e); if (o.finished) o.errorFirst = false; });
		QObject::connect(r, &QNetworkReply::finished, this, [this, i, r]() {
			Op& o = ops[i]; ++o.finished; if (o.finished > 1) return; if (o.kind != Op::Refused) --outstanding[o.server]; o.error = int(r->error()); o.finishedEarly = o.finishedEarly || !r->isFinished(); if (r->isOpen()) o.taken += r->readAll();
			for (int j = 0; j < ops.size(); ++j) if (ops.at(j).fromHandler && !ops.at(j).issued && ops.at(j).abortAfter == i) { issue(j); } });
		if (o.abort == Op::AtOnce) doAbort(i); else if (o.abort == Op::Later) QTimer::singleShot(o.abortAfter, this, [this, i]() { doAbort(i); });
		if (ops.at(i).dropped) { if (o.kind != Op::Refused) {} QTimer::singleShot(o.abortAfter, this, [this, i]() { delete ops[i].reply; }); }
	}
};

Op genOp(Gen& g, Ctx& c, World& w, int i)
{
	Op o; o.server = int(g.chance(1, 3)); o.custom = g.chance(1, 4); o.method = o.custom ? g.pickB({"PATCH", "OPTIONS", "PROPFIND", "REPORT", "DELETE", "x-verb"}) : g.pickB({"GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD"});
	o.target = genTarget(g); o.target.path = "/" + num(i) + (g.chance(1, 2) ? QByteArray() : o.target.path);
	int n = int(g.size(4)); for (int k = 0; k < n; ++k) { QByteArray name = genHeaderName(g); if (ieq(name, "host") || ieq(name, "cookie") || ieq(name, "content-length")) name = "X-H"; bool dup = false; for (const Hdr& h : o.headers) dup = dup || ieq(h.first, name); if (!dup) { QByteArray v = genHeaderValue(g, 40); if (v.isNull()) v = ""; o.headers << Hdr(name, v); } }
	if ((o.custom || o.method == "POST" || o.method == "PUT") && g.chance(2, 3)) { o.data = genData(g, 60000); o.asDevice = g.chance(1, 2); }
	if (o.method == "POST" || o.method == "PUT" || o.custom) { bool has = false; for (const Hdr& h : o.headers) has = has || ieq(h.first, "content-type"); if (!has) o.headers << Hdr("Content-Type", "x/y"); }
	o.kind = Op::Kind(g.weighted({14, 2, 1, 1, 2}));
	MsgOpts q; q.informational = false; q.head = o.method == "HEAD"; q.maxBody = 120000; Hdrs extra;
	if (g.chance(1, 4)) for (int k = 0, e = int(g.u(1, 3)); k < e; ++k) { QByteArray v = "c" + num(i) + "-" + num(k) + "=" + g.chars(g.u(0, 8), "abcXYZ01_-"); if (g.chance(1, 3)) v = "shared=" + num(i); v += g.pickB({"; Path=/", "; path=/", "; Path=/" + num(g.u(0, 5)), "; Path=/; HttpOnly", "; Path=/; Expires=Thu, 01 Jan 1970 00:00:00 GMT", "; Path=/; Max-Age=100000"}); extra << Hdr(g.pickB({"Set-Cookie", "set-cookie"}), v); c.label("Set-Cookie"); if (k) c.label("several Set-Cookie"); }
	if (g.chance(1, 5)) { static const int st[] = {301, 302, 303, 307, 308, 201}; q.status = st[g.u(0, 5)]; o.hasLocation = true; o.location = g.pickB({"http://example.org/a?b=c", "/x/y", "rel", "?q", "http://h/%C3%A9%20", "//host/p"}); extra << Hdr(g.pickB({"Location", "location"}), o.location); c.label("Location"); }
	if (g.chance(1, 6)) { QByteArray name = g.pickB({"X-Twice", "Via", "Warning"}); extra << Hdr(name, "one") << Hdr(g.chance(1, 2) ? name : name.toLower(), "two"); c.label("repeated header"); }
	if (g.chance(1, 8)) { extra << Hdr("X-Empty", ""); c.label("empty header value"); }
	o.msg = genMsg(g, q, extra); QByteArray wire = o.msg.wire(); int head = o.msg.headWire.size();
	o.ans.end = o.msg.framing == Msg::Eof && !q.head ? SAns::Close : SAns::Keep; if (o.ans.end == SAns::Keep && g.chance(1, 8)) { o.ans.end = SAns::Close; o.ans.endGap = int(g.u(0, 1)); }
	o.part = o.msg.body;
	if (o.kind == Op::Truncated || o.kind == Op::Hang)
	{
		o.cut = int(g.chance(1, 3) ? g.u(0, uint32_t(head - 1)) : g.u(0, uint32_t(wire.size() - 1))); if (o.kind == Op::Truncated && o.msg.framing == Msg::Eof && o.cut >= head) o.cut = head - 1;
		if (q.head || bodilessStatus(o.msg.status)) o.cut = qMin(o.cut, head - 1);
		wire.truncate(o.cut); o.ans.end = o.kind == Op::Truncated ? SAns::Close : SAns::Keep; o.ans.endGap = 0;
		o.part = o.cut > head && o.msg.framing != Msg::Chunked ? o.msg.body.left(o.cut - head) : QByteArray();
		if (o.kind == Op::Hang) o.ans.end = SAns::Stall;
	}
	if (o.kind == Op::Garbage) { wire = g.pickB({"SSH-2.0-x\r\n", "HTTP/1.1 2x0 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nbad\x01: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n"}); o.part.clear(); }
	if (o.kind == Op::Complete || o.kind == Op::Truncated) { if (g.chance(1, 8)) { o.abort = Op::Abort(g.u(1, 4)); o.abortAfter = int(g.u(0, 3)); } else if (g.chance(1, 12)) { o.dropped = true; o.abortAfter = int(g.u(0, 3)); } }
	if (g.chance(1, 10) && o.kind != Op::Garbage) { if (g.chance(1, 3)) { wire = "HTTP/1.1 " + g.pickB({"102 Processing", "103 Early Hints"}) + "\r\n" + g.pickB({"", "Set-Cookie: interim=1; Path=/\r\n", "Location: /nowhere\r\nX-Twice: zero\r\n"}) + "\r\n" + wire; c.label("interim response other than 100"); } else { wire = "HTTP/1.1 100 Continue\r\n\r\n" + wire; c.label("100 Continue"); } }
	segment(g, o.ans, wire, 10); if (g.chance(1, 2)) o.ans.holdId = i;
	o.reading = Op::Reading(g.u(0, 3)); o.piece = int(g.chance(1, 2) ? g.u(1, 64) : g.u(64, 700)); if (o.msg.body.size() > 5000) o.piece = 700;
	(void)w; return o;
}

void c20(Gen& g, Ctx& c)
{
	const char* how = 0; World w; if (!w.servers[0].start(g) || !(how = w.servers[1].startSecond(g, w.servers[0]))) { c.label("no socket"); return; }
	c.label(how);
	{ RawServer d; if (!d.listen(w.servers[0].serverAddress(), 0)) { c.label("no socket"); return; } w.dead = d.authority(); }
	for (RawServer& s : w.servers) s.answer = [&](const SReq& r, int) { int i = -1; for (int k = 0; k < w.ops.size(); ++k) if (w.ops.at(k).target.wire() == r.target) i = k; return i < 0 ? SAns() : w.ops.at(i).ans; };
	int rounds = int(g.u(1, 3)); int closes[2] = {0, 0}, freshAllowed = 0; (void)freshAllowed;
	for (int round = 0; round < rounds && !c.failed(); ++round)
	{
		int first = w.ops.size(), n = int(g.chance(1, 8) ? g.u(6, 16) : g.u(1, 5)); for (int i = 0; i < n; ++i) w.ops << genOp(g, c, w, first + i);
		if (n > 6) c.label("more than six at once");
		for (int i = first + 1; i < first + n; ++i) if (g.chance(1, 5) && !w.ops.at(i).abort && !w.ops.at(i).dropped) { Op& o = w.ops[i]; int on = int(g.u(uint32_t(first), uint32_t(i - 1))); if (!w.ops.at(on).dropped && w.ops.at(on).kind != Op::Hang) { o.fromHandler = true; o.abortAfter = on; c.label("request from a finished handler"); } }
		// A server closing a connection unannounced may cross a request sent on it, so that is done only when no request can follow within the round.
		bool staggered = g.chance(1, 2); for (int i = first; i < first + n; ++i) staggered = staggered || w.ops.at(i).fromHandler;
		for (int i = first; i < first + n; ++i) { Op& o = w.ops[i]; if ((staggered || o.dropped) && o.kind == Op::Complete && o.ans.end == SAns::Close && !(o.msg.framing == Msg::Eof && !o.msg.head)) { o.ans.end = SAns::Keep; o.ans.endGap = -1; } }
		for (int i = first; i < first + n; ++i)
		{
			const Op& o = w.ops.at(i); static const char* kinds[] = {"complete", "truncated", "garbage", "refused", "hang"}; static const char* aborts[] = {"", " abort at once", " abort later", " abort on headers", " abort on content"};
			c.desc(num(i) + " [" + num(round) + "]: " + o.method + " " + kinds[o.kind] + aborts[o.abort] + (o.dropped ? " dropped" : "") + (o.fromHandler ? " after " + num(o.abortAfter) : QByteArray()) + " to " + num(o.server) + " " + o.msg.text() + (o.ans.holdId >= 0 ? " held" : "") + (o.data.isEmpty() ? QByteArray() : " sending " + num(o.data.size())) + (o.kind == Op::Truncated || o.kind == Op::Hang ? " cut " + num(o.cut) : QByteArray()) + "; ");
			c.label(kinds[o.kind]); if (o.custom) c.label("custom verb"); if (o.dropped) c.label("reply deleted early"); if (o.method == "HEAD") c.label("HEAD");
		}
		if (n > 1 || rounds > 1 || w.ops.at(first).kind != Op::Complete || w.ops.at(first).ans.segments.size() > 1) c.nontrivial();
		for (int i = first; i < first + n; ++i) if (!w.ops.at(i).fromHandler) { w.issue(i); if (staggered && g.chance(1, 4)) settle(1); }
		if (g.chance(1, 2)) settle(2);
		// Answer in any order.
		QVector<int> order; for (int i = first; i < first + n; ++i) order.insert(int(g.u(0, uint32_t(order.size()))), i);
		for (int i : order) { if (w.ops.at(i).ans.holdId >= 0) { for (RawServer& s : w.servers) s.release(i); if (g.chance(1, 2)) settle(1); } }
		// What has been sent is delivered while the rest is awaited.
		for (int i = first; i < first + n; ++i)
		{
			Op& o = w.ops[i]; if (o.kind != Op::Hang) continue; if (o.fromHandler && !waitUntil([&]() { return o.issued; }, 20000)) { c.fail("never finished", "the request before " + num(i) + " never finished"); return; }
			if (!waitUntil([&]() { Op& o = w.ops[i]; if (o.finished) return true; if (o.cut >= o.msg.headWire.size() && !o.metas) return false; return (o.reading == Op::AtEnd ? (o.reply && o.reply->isOpen() ? o.reply->bytesAvailable() : 0) : o.taken.size()) >= o.part.size(); }, 20000)) { c.fail("delivery", "reply " + num(i) + ": the " + num(o.part.size()) + " bytes sent so far were not delivered, only " + num(o.taken.size())); return; }
			if (w.ops.at(i).finished) { c.fail("early finish", "reply " + num(i) + " finished before its response did"); return; }
			c.label("partial delivery"); if (round + 1 == rounds && g.chance(1, 3)) { w.ops[i].dropped = true; c.label("left pending"); } else w.doAbort(i);
		}
		for (int i = first; i < first + n; ++i) if (!waitUntil([&]() { const Op& o = w.ops.at(i); return o.issued && o.done(); }, 20000)) { c.fail("never finished", "reply " + num(i) + " did not finish; " + num(w.ops.at(i).metas) + " metaDataChanged, " + num(w.ops.at(i).taken.size()) + " bytes"); return; }
		settle(2);
		for (int i = first; i < first + n; ++i)
		{
			Op& o = w.ops[i]; QByteArray where = "reply " + num(i);
			if (o.kind != Op::Refused)
			{
				// The request.
				const SReq* r = 0; int seen = 0; RawServer& s = w.servers[o.server]; for (const SReq& q : s.requests) if (q.target == o.target.wire()) { r = &q; ++seen; }
				if (seen > 1) { c.fail("request", "request " + num(i) + " was sent " + num(seen) + " times"); return; }
				if (!r) { if (!o.aborted && !o.dropped) { c.fail("request", "request " + num(i) + " never arrived"); return; } }
				else
				{
					if (r->bad) { c.fail("request", "request " + num(i) + ": " + r->why); return; }
					if (r->method != o.method) { c.fail("request", "request " + num(i) + " arrived as " + show(r->method)); return; }
					Hdrs want, got; want << Hdr("Host", s.authority()); want += o.headers; QByteArray cookie; for (const Hdr& h : r->headers) if (ieq(h.first, "cookie")) { cookie += (cookie.isEmpty() ? "" : "; ") + h.second; } else if (!ieq(h.first, "content-length")) got << h;
					if (got != want) { c.fail("request headers", "request " + num(i) + ": " + showHdrs(got) + ", expected " + showHdrs(want)); return; }
					c.eq(r->body, o.data, "body of request " + num(i)); if (c.failed()) return;
					if (cookie != o.cookieHeader) { c.fail("cookies", "request " + num(i) + " was sent with cookies \"" + show(cookie) + "\", expected \"" + show(o.cookieHeader) + "\""); return; }
					if (!cookie.isEmpty()) c.label("Cookie sent");
				}
			}
			bool closing = o.kind != Op::Complete || o.aborted || o.ans.end != SAns::Keep || !o.msg.keepAlive || (o.msg.head && o.msg.framing == Msg::Eof) || o.msg.framing == Msg::NoBody; if (closing && o.kind != Op::Refused) ++closes[o.server];
			if (o.dropped) { --w.outstanding[o.server]; ++closes[o.server]; continue; } // Its connection may stay busy for some time.
			int want = QNetworkReply::NoError; if (o.aborted) want = QNetworkReply::OperationCanceledError; else if (o.kind == Op::Truncated) want = QNetworkReply::RemoteHostClosedError; else if (o.kind == Op::Garbage) want = QNetworkReply::ProtocolUnknownError; else if (o.kind == Op::Refused) want = QNetworkReply::UnknownNetworkError;
			if (o.finished != 1) { c.fail("finish", where + " finished " + num(o.finished) + " times"); return; }
			if (o.managerFinished != 1) { c.fail("finish", "the manager reported " + where + " finished " + num(o.managerFinished) + " times"); return; }
			if (want && (o.errors.size() != 1 || o.errors.at(0) != want)) { QByteArray l; for (int e : o.errors) l += num(e) + " "; c.fail("error signal", where + ": errors signalled: " + l + "expected " + num(want)); return; }
			if (!want && !o.errors.isEmpty()) { c.fail("error signal", where + ": error " + num(o.errors.at(0)) + " signalled for a complete response"); return; }
			if (o.error != want) { c.fail("error()", where + ": error() is " + num(o.error) + ", expected " + num(want)); return; }
			if (!o.errorFirst) { c.fail("error signal", where + ": error signalled after finished"); return; }
			if (o.finishedEarly) { c.fail("finish", where + ": isFinished() does not match"); return; }
			if (o.readBeforeMeta) { c.fail("signals", where + ": readyRead before metaDataChanged"); return; }
			if (o.metas > 1) { c.fail("signals", where + ": metaDataChanged " + num(o.metas) + " times"); return; }
			if (o.endEarly) { c.fail("delivery", where + ": read() reported the end of the content before the reply finished"); return; }
			if (o.reply->url() != w.url(o) || o.reply->request().url() != w.url(o)) { c.fail("reply", where + ": url"); return; }
			QNetworkAccessManager::Operation op = o.custom ? QNetworkAccessManager::CustomOperation : o.method == "GET" ? QNetworkAccessManager::GetOperation : o.method == "HEAD" ? QNetworkAccessManager::HeadOperation : o.method == "POST" ? QNetworkAccessManager::PostOperation : o.method == "PUT" ? QNetworkAccessManager::PutOperation : QNetworkAccessManager::DeleteOperation;
			if (o.reply->operation() != op) { c.fail("reply", where + ": operation() is " + num(o.reply->operation())); return; }
			if (o.kind == Op::Complete && !o.aborted && o.metas != 1) { c.fail("signals", where + ": no metaDataChanged"); return; }
			if (o.metas && o.kind != Op::Garbage)
			{
				if (o.status != o.msg.status) { c.fail("status", where + ": status " + num(o.status) + ", expected " + num(o.msg.status)); return; }
				Hdrs merged; for (const Hdr& h : o.msg.headers) { int at = -1; for (int k = 0; k < merged.size(); ++k) if (ieq(merged.at(k).first, h.first)) at = k; if (at < 0) merged << h; else merged[at].second += (ieq(h.first, "set-cookie") ? "\n" : ", ") + h.second; }
				QByteArray why; for (const Hdr& h : merged) { bool found = false; for (const auto& p : o.raw) if (ieq(p.first, h.first)) { found = true; if (p.second != h.second) why = h.first + " is \"" + show(p.second) + "\", expected \"" + show(h.second) + "\""; } if (!found) why = h.first + " is missing"; }
				if (why.isEmpty() && o.raw.size() != merged.size()) why = num(o.raw.size()) + " headers, expected " + num(merged.size());
				if (!why.isEmpty()) { c.fail("raw headers", where + ": " + why); return; }
				QUrl target; for (const Hdr& h : o.msg.headers) if (ieq(h.first, "location")) target = QUrl::fromEncoded(h.second); if (o.redirect != target) { c.fail("redirect", where + ": redirection target \"" + o.redirect.toEncoded() + "\""); return; }
			}
			if (want == QNetworkReply::NoError) c.eq(o.taken, o.msg.body, "content of " + where); else if (o.kind != Op::Garbage && !o.msg.body.startsWith(o.taken)) c.fail("content", where + ": the content of a failed reply is not what was sent");
			if (c.failed()) return;
			if (o.aborted) c.label("aborted");
			if (g.chance(1, 2)) { delete o.reply; } else o.reply->deleteLater();
		}
		// The client side notices all closes before the next round.
		if (!waitUntil([&]() { int open = 0, left = 0; for (QTcpSocket* k : w.nam->findChildren<QTcpSocket*>()) if (k->state() == QAbstractSocket::ConnectedState) ++open; for (RawServer& s : w.servers) for (RawConn* k : s.conns) if (!k->gone && !(k->answering && k->ans.end == SAns::Close)) ++left; return open <= left; }, 20000)) { c.fail("stuck", "the closing of connections is not noticed"); return; }
		for (int k = 0; k < 2; ++k) { if (w.servers[k].conns.size() > w.most[k] + closes[k]) { c.fail("reuse", num(w.servers[k].conns.size()) + " connections for at most " + num(w.most[k]) + " requests at once and " + num(closes[k]) + " closed connections"); return; } if (w.servers[k].stray) { c.fail("request", "a request on a connection whose response was pending"); return; } if (w.servers[k].conns.size() < w.servers[k].requests.size()) c.label("connection reused"); if (w.most[k] > 1) c.label("concurrent"); }
	}
	// Replies may outlive their manager.
	w.nam.reset();
	for (Op& o : w.ops) if (o.reply) { int before = o.finished; if (g.chance(1, 2)) o.reply->abort(); (void)before; delete o.reply; }
	settle(1);
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C20", "One to three rounds of one to sixteen requests through one manager to two scripted loopback servers, each with its own method or custom verb, headers, cookies and body (bytes or device), answered by generated responses (every framing, interim 100, cookies, redirections, repeated and empty headers), cut, invalid, stalled or refused; answers held back and released in any order, requests issued from finished handlers, replies aborted or deleted at any point, bytes read as they arrive, in pieces or at the end. Non-trivial: more than one request or segment, or a failure.",
			16000, 400000, c20, 90, 8, {"Repeated headers are reported merged (', ', or a line break for Set-Cookie), as QNetworkReply documents.", "A cookie without a Path attribute is taken to be for the whole site.", "QNetworkCookieJar of Qt is the reference for cookies."}, {"complete", "truncated", "garbage", "refused", "hang", "partial delivery", "aborted", "reply deleted early", "request from a finished handler", "Set-Cookie", "several Set-Cookie", "Cookie sent", "Location", "repeated header", "empty header value", "connection reused", "concurrent", "more than six at once", "custom verb", "HEAD", "left pending", "100 Continue"}},
	};
	return pbt::main(argc, argv, checks);
}
