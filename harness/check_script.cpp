// C23 script handlers.
#include "plan.h"
#include "HttpHandlerQtScript.h"
#include <QtCore/QFile>
#include <QtCore/QMap>
#include <QtCore/QPointer>
#include <QtCore/QTemporaryDir>
#include <QtCore/QUrl>
#include <QtScript/QtScript>
#include <fcntl.h>
#include <sys/stat.h>
#include <functional>

using namespace Pillow;

namespace {

//
// Text.
//
bool isHex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool wellFormed(const QByteArray& b) { for (int i = 0; i < b.size(); ++i) if (b.at(i) == '%' && !(i + 2 < b.size() && isHex(b.at(i + 1)) && isHex(b.at(i + 2)))) return false; return true; }
int hexValue(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
QString decoded(const QByteArray& b)
{
	if (!wellFormed(b)) return QUrl::fromPercentEncoding(b); // What becomes of stray percent signs is not specified.
	QByteArray r; for (int i = 0; i < b.size(); ++i) if (b.at(i) == '%') { r += char(hexValue(b.at(i + 1)) * 16 + hexValue(b.at(i + 2))); i += 2; } else r += b.at(i);
	return QString::fromUtf8(r.constData(), r.size());
}
QByteArray literal(const QString& s)
{
	QByteArray r = "'"; for (QChar c : s) { if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ' ') r += c.toLatin1(); else { r += "\\u"; r += QByteArray::number(c.unicode() | 0x10000, 16).right(4); } } return r + "'";
}
QByteArray latin1Literal(const QByteArray& b) { return literal(QString::fromLatin1(b.constData(), b.size())); }
QString genText(Gen& g, uint32_t max)
{
	static const QString alphabet = QString::fromUtf8("abc XYZ019<>&\"'\\/%\n\t\xc3\xa9\xc3\x9f\xe4\xb8\x80\xe2\x82\xac"); QString r; int n = int(g.size(max));
	if (n > 200) return QString::fromLatin1(g.bulk(uint32_t(n)));
	for (int i = 0; i < n; ++i) r += alphabet.at(int(g.u(0, uint32_t(alphabet.size() - 1)))); return r;
}

//
// What a script does with one request.
//
struct Act {
	enum Kind { Answer, Decline, Throw, AnswerThrow, PartThrow, AnswerDecline, Later } kind; Plan plan; QByteArray code; bool accepted; bool raw; int parts;
	Act() : kind(Answer), accepted(true), raw(false), parts(0) {}
};
struct Observed { QObject* native; QMap<QByteArray, QString> fields; QMap<QString, QString> headers, params; bool strings; Observed() : native(0), strings(true) {} };

struct World {
	QScriptEngine engine; QVector<Observed> seen; QVector<int> order; int which; QVector<Act> acts; std::function<void()> loading;
	World() : which(-1) {}
};

QMap<QString, QString> entries(const QScriptValue& o, bool& strings) { QMap<QString, QString> m; for (QScriptValueIterator it(o); it.hasNext();) { it.next(); if (!it.value().isString()) strings = false; m[it.name()] = it.value().toString(); } return m; }

QScriptValue recordFn(QScriptContext* x, QScriptEngine*, void* p)
{
	World* w = static_cast<World*>(p); Observed o; QScriptValue r = x->argument(0);
	for (const char* n : {"requestMethod", "requestUri", "requestPath", "requestQueryString", "requestFragment", "requestContent"}) { QScriptValue v = r.property(n); if (!v.isString()) o.strings = false; o.fields[n] = v.toString(); }
	o.headers = entries(r.property("requestHeaders"), o.strings); o.params = entries(r.property("requestQueryParams"), o.strings); o.native = r.property("nativeRequest").toQObject();
	w->seen << o; return x->argumentCount() == 1 ? QScriptValue(w->which) : QScriptValue(-1);
}
QScriptValue bytesFn(QScriptContext* x, QScriptEngine* e, void*) { QString s = x->argument(0).toString(); QByteArray r; for (QChar c : s) r += c.toLatin1(); return e->newVariant(QVariant(r)); }
QScriptValue loadingFn(QScriptContext*, QScriptEngine*, void* p) { World* w = static_cast<World*>(p); if (w->loading) w->loading(); return QScriptValue(); }

// Throws, in many ways.
QByteArray genThrow(Gen& g, Ctx& c)
{
	switch (g.u(0, 11))
	{
	case 0: return "throw new Error(" + literal(genText(g, 40)) + ");";
	case 1: c.label("throws a string"); return "throw " + literal(genText(g, 40)) + ";";
	case 2: c.label("throws a false value"); return "throw " + g.pickB({"0", "''", "null", "undefined", "false", "NaN"}) + ";";
	case 3: c.label("throws an object"); return "throw {a: 1, b: 'x'};";
	case 4: c.label("throws an object that throws"); return g.pickB({"throw {toString: function() { throw 1; }};", "throw {get a() { throw new Error('in a getter'); }};", "var e = new Error('x'); e.toString = function() { throw 'y'; }; throw e;"});
	case 5: return "undefined.property;";
	case 6: return "noSuchFunction();";
	case 7: return "request.nativeRequest.noSuchMethod();";
	case 8: return "(function a() { (function b() { throw new TypeError('deep'); })(); })();";
	case 9: return "try { throw 1; } finally { throw " + g.pickB({"2", "new Error('2')", "true"}) + "; }";
	case 10: return "throw " + g.pickB({"1", "true", "[1, 2]", "function() {}", "request"}) + ";";
	default: return "eval('(((');";
	}
}

QByteArray genTrue(Gen& g) { return g.pickB({"true", "1", "'x'", "{}", "[]", "-1", "new Date()", "function() {}", "request", "'0'", "'false'", "new Boolean(false)"}); }
QByteArray genFalse(Gen& g) { return g.pickB({"return false;", "return 0;", "return '';", "return null;", "return undefined;", "return NaN;", "return;", ""}); }

// A plan as script code. Every byte of the headers is UTF-8.
QByteArray headersCode(const Hdrs& h) { QByteArray r = "{"; for (int i = 0; i < h.size(); ++i) r += (i ? ", " : "") + literal(QString::fromUtf8(h.at(i).first)) + ": " + literal(QString::fromUtf8(h.at(i).second)); return r + "}"; }
QVector<QByteArray> planCode(const Plan& p, const QString& text, bool raw)
{
	QVector<QByteArray> v;
	if (!p.whole) v << "request.nativeRequest.writeHeaders(" + num(p.status) + ", " + headersCode(p.headers) + ");";
	else if (raw) v << "request.nativeRequest.writeResponse(" + num(p.status) + ", " + headersCode(p.headers) + ", bytes(" + latin1Literal(p.content) + "));";
	else v << "request.nativeRequest.writeResponseString(" + num(p.status) + ", " + headersCode(p.headers) + ", " + literal(text) + ");";
	for (const QByteArray& x : p.pieces) v << "request.nativeRequest.writeContent(bytes(" + latin1Literal(x) + "));";
	if (p.end) v << "request.nativeRequest.endContent();";
	return v;
}

Act genAct(Gen& g, Ctx& c, const Req& q, bool keepable)
{
	Act a; PlanOpts po; po.keepable = keepable; po.maxPiece = g.chance(1, 10) ? 20000 : 300; a.plan = genCompletePlan(g, q, po);
	// In an object, names are unique and such numbers come first.
	Hdrs h; for (Hdr x : a.plan.headers) { if (QString::fromUtf8(x.first).toUtf8() != x.first) continue; if (QString::fromUtf8(x.second).toUtf8() != x.second) x.second = "v"; bool dup = x.first.at(0) >= '0' && x.first.at(0) <= '9'; for (const Hdr& y : h) if (y.first == x.first) dup = true; if (!dup) h << x; } a.plan.headers = h;
	a.raw = g.chance(1, 2); QString text; if (a.plan.whole && !a.raw && !hasHeader(a.plan.headers, "content-length")) { if (a.plan.status != 204 && a.plan.status != 304) text = genText(g, 400); a.plan.content = text.toUtf8(); } else a.raw = true; a.plan.asString = false;
	if (!a.plan.end && !modelOf(q, a.plan).done) a.plan.end = true;
	a.kind = Act::Kind(g.weighted({8, 3, 4, 2, keepable ? 0u : 1u, 1, 2})); QVector<QByteArray> code = planCode(a.plan, text, a.raw); QByteArray all; for (const QByteArray& x : code) all += x + " ";
	switch (a.kind)
	{
	case Act::Answer: a.code = all + "return " + genTrue(g) + ";"; c.label(a.plan.whole ? "answers at once" : "answers piecewise"); break;
	case Act::Decline: a.code = genFalse(g); a.accepted = false; c.label("declines"); break;
	case Act::Throw: a.code = genThrow(g, c); c.label("throws"); break;
	case Act::AnswerThrow: a.code = all + genThrow(g, c); c.label("throws after the answer"); break;
	case Act::PartThrow: if (a.plan.whole || code.size() < 2 || modelOf(q, a.plan).doneAt < 1) { a.kind = Act::Answer; a.code = all + "return true;"; } else { a.parts = int(g.u(1, uint32_t(modelOf(q, a.plan).doneAt))); a.code.clear(); for (int i = 0; i < a.parts; ++i) a.code += code.at(i) + " "; a.code += genThrow(g, c); c.label("throws within the answer"); } break;
	case Act::AnswerDecline: a.code = all + genFalse(g); a.accepted = false; c.label("answers and returns false"); break;
	case Act::Later: a.code = "return " + genTrue(g) + ";"; c.label("answers later"); break;
	}
	return a;
}

Req genScriptRequest(Gen& g, bool keepable)
{
	ReqOpts ro; ro.absoluteUris = false; ro.oddVersions = false; ro.expect = false; ro.longFields = g.chance(1, 20); ro.maxBody = g.chance(1, 6) ? 40000 : 300; ro.keepAliveHeaders = !keepable; Req q = genRequest(g, ro); if (keepable) q.version = "HTTP/1.1";
	if (keepable) for (Hdr& h : q.headers) if (ieq(h.first, "connection")) h.second = "keep-alive";
	static const char* enc[] = {"%41", "%20", "%2B", "+", "%C3%A9", "%00", "%25", "%3d", "%26", "%e4%b8%80", "%ff", "a", "b=c", "&", "=", "x"};
	auto mix = [&]() { QByteArray r; for (int i = int(g.size(8)); i > 0; --i) r += enc[g.u(0, sizeof enc / sizeof *enc - 1)]; return r; };
	if (g.chance(1, 2)) { int at = q.headers.size(); q.headers.insert(at, Hdr(g.pickB({"X-Encoded", "x-encoded", "Referer", "length", "toString"}), mix())); q.pads.insert(at, " "); }
	if (g.chance(1, 3)) { q.query = mix(); q.uri = q.path + "?" + q.query; }
	if (g.chance(1, 4)) { bool has = false; for (int i = 0; i < q.headers.size(); ++i) if (ieq(q.headers.at(i).first, "content-length")) has = true; if (has) { QByteArray b = mix(); q.body = b; for (Hdr& h : q.headers) if (ieq(h.first, "content-length")) h.second = num(b.size()); } }
	return q;
}

QMap<QString, QString> paramsOf(const Req& q)
{
	QMap<QString, QString> m; if (q.query.isEmpty()) return m;
	QList<QByteArray> parts = q.query.split('&'); if (q.query.endsWith('&')) parts.removeLast();
	for (const QByteArray& x : parts) { int e = x.indexOf('='); m[decoded(e < 0 ? x : x.left(e))] = e < 0 ? QString() : decoded(x.mid(e + 1)); }
	return m;
}
QByteArray showMap(const QMap<QString, QString>& m) { QByteArray r = "{"; for (auto i = m.begin(); i != m.end(); ++i) r += "\"" + show(i.key().toUtf8(), 60) + "\": \"" + show(i.value().toUtf8(), 80) + "\" "; return r + "}"; }

void compareObserved(Ctx& c, const Observed& o, const Req& q, HttpConnection* conn, const QByteArray& where)
{
	auto text = [&](const char* name, const QByteArray& raw) { QString got = o.fields.value(name), want = decoded(raw); if (got != want) c.fail(name, where + name + " is \"" + show(got.toUtf8()) + "\", expected \"" + show(want.toUtf8()) + "\""); };
	c.check(o.native == conn, "nativeRequest", where + "nativeRequest is not the connection"); c.check(o.strings, "type", where + "something is not a string");
	text("requestMethod", q.method); text("requestUri", q.uri); text("requestPath", q.path); text("requestQueryString", q.query); text("requestFragment", q.fragment); text("requestContent", q.body);
	QMap<QString, QString> h; for (const Hdr& x : q.headers) h[QString::fromUtf8(x.first.constData(), x.first.size())] = decoded(x.second);
	if (o.headers != h) c.fail("headers", where + "requestHeaders is " + showMap(o.headers) + ", expected " + showMap(h));
	bool all = wellFormed(q.query); QMap<QString, QString> p = paramsOf(q); if (all && o.params != p) c.fail("params", where + "requestQueryParams is " + showMap(o.params) + ", expected " + showMap(p));
}

// One connection whose requests go to a handler.
// What is evaluated next runs in the engine's own scope, and nothing of a script was added to that.
void ownScope(World& w, Ctx& c, const QByteArray& where)
{
	QScriptContext* x = w.engine.currentContext();
	c.check(!x->parentContext() && x->thisObject().strictlyEquals(w.engine.globalObject()) && x->activationObject().strictlyEquals(w.engine.globalObject()), "scope", where + "the engine is left in another scope");
	QByteArray names; for (const char* name : {"count", "handle", "other", "request"}) if (w.engine.globalObject().property(name).isValid()) names += QByteArray(name) + " ";
	c.eq(names, "", where + "names that became global");
}

struct Line : QObject {
	PipeDevice dev; HttpConnection conn; HttpHandler* handler; World* w; Ctx* c; QVector<int> queue, handled; QVector<bool> results; int at, pos; bool later, closed, broken;
	Line() : handler(0), w(0), c(0), at(0), pos(0), later(false), closed(false), broken(false)
	{
		QObject::connect(&conn, &HttpConnection::requestReady, this, [this](HttpConnection*) { ready(); });
		QObject::connect(&conn, &HttpConnection::closed, this, [this](HttpConnection*) { closed = true; });
		conn.initialize(&dev, &dev);
	}
	void ready()
	{
		if (at >= queue.size()) { c->fail("announcement", "more requests announced than were sent"); return; }
		int i = queue.at(at++), before = w->seen.size(), outer = w->which; w->which = i; const Act& a = w->acts.at(i); QByteArray where = "request " + num(i) + ": ";
		later = a.kind == Act::Later; bool r = handler->handleRequest(&conn); w->which = outer;
		handled << i; if (c->failed()) return;
		// The request is the first one recorded; pipelined ones follow.
		if (w->seen.size() <= before) { c->fail("called", where + "the script was not called"); return; }
		w->order << i; index[i] = before;
		bool want = a.kind == Act::Throw || a.kind == Act::AnswerThrow || a.kind == Act::PartThrow || a.accepted;
		if (r != want) { c->fail("accepted", where + "handleRequest() returned " + num(r)); return; }
		if (w->engine.hasUncaughtException()) { c->fail("engine", where + "an exception was left in the engine"); return; }
		if (!r && a.kind == Act::Decline) conn.writeResponse(501, HttpHeaderCollection(), "declined");
	}
	QMap<int, int> index;
};

QByteArray dispatcher(const World& w) { QByteArray s = "(function(request) { switch (record(request)) {\n"; for (int i = 0; i < w.acts.size(); ++i) s += "case " + num(i) + ": " + w.acts.at(i).code + " break;\n"; return s + "} })"; }

void setUp(World& w) { QScriptValue global = w.engine.globalObject(); global.setProperty("record", w.engine.newFunction(recordFn, &w)); global.setProperty("bytes", w.engine.newFunction(bytesFn, (void*)0)); global.setProperty("loading", w.engine.newFunction(loadingFn, &w)); }

void functions(Gen& g, Ctx& c)
{
	World w; setUp(w); QVector<Req> reqs; int n = 1 + int(g.size(6));
	for (int i = 0; i < n; ++i) { Req q = genScriptRequest(g, i + 1 < n); reqs << q; w.acts << genAct(g, c, q, i + 1 < n); c.desc(num(i) + ": " + q.method + " " + show(q.uri, 80) + " " + q.version + " " + num(q.headers.size()) + " headers +" + num(q.body.size()) + " -> " + show(w.acts.at(i).code, 300) + "\n"); }
	if (n > 1) c.nontrivial();
	QScriptValue f = w.engine.evaluate(QString::fromLatin1(dispatcher(w))); if (!f.isFunction()) { c.fail("harness", "the script of the check does not evaluate: " + f.toString().toUtf8()); return; }
	HttpHandlerQtScript* h = g.chance(1, 2) ? new HttpHandlerQtScript(f) : new HttpHandlerQtScript; if (!h->scriptFunction().isFunction()) { PipeDevice d; HttpConnection x; bool r = true; QObject::connect(&x, &HttpConnection::requestReady, [&](HttpConnection* q) { r = h->handleRequest(q); q->writeResponse(404); }); x.initialize(&d, &d); d.feed("GET / HTTP/1.1\r\n\r\n"); c.check(!r && d.all().startsWith("HTTP/1.1 404"), "without", "a handler without a function accepted a request"); h->setScriptFunction(f); c.label("function set later"); }
	QScopedPointer<HttpHandlerQtScript> owner(h);
	// On one connection, one after the other or pipelined, or on a connection each.
	bool one = g.chance(2, 3); QVector<Line*> lines; struct Del { QVector<Line*>& l; ~Del() { qDeleteAll(l); } } del{lines};
	for (int i = 0; i < (one ? 1 : n); ++i) { Line* l = new Line; l->handler = h; l->w = &w; l->c = &c; lines << l; }
	bool pipelined = one && g.chance(1, 2); if (pipelined) { c.label("pipelined"); for (const Act& a : w.acts) if (a.kind == Act::Later) pipelined = false; }
	for (int i = 0; i < n; ++i) lines.at(one ? 0 : i)->queue << i;
	if (pipelined) { QByteArray all; for (const Req& q : reqs) all += q.wire(); for (const QByteArray& x : g.cut(all, 20)) { lines.at(0)->dev.feed(x); if (c.failed()) return; } settle(2); }
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		Line* l = lines.at(one ? 0 : i); const Req& q = reqs.at(i); const Act& a = w.acts.at(i); QByteArray where = "request " + num(i) + ": ";
		if (!pipelined) { l->dev.feed(q.wire()); settle(1); } if (c.failed()) return;
		if (!l->index.contains(i)) { c.fail("announcement", where + "not handled"); return; }
		compareObserved(c, w.seen.at(l->index.value(i)), q, &l->conn, where); if (c.failed()) return;
		if (a.kind == Act::Later) { c.check(l->conn.state() == HttpConnection::SendingHeaders, "later", where + "something was answered already"); a.plan.run(&l->conn); settle(1); }
		bool head = q.method == "HEAD"; Resp r; QByteArray err;
		if (a.kind == Act::PartThrow)
		{
			// What was written before is sent; nothing else is.
			Plan p = a.plan; p.pieces.resize(qMin(p.pieces.size(), a.parts - 1)); p.end = false; Model m = modelOf(q, p);
			if (m.done) continue; QByteArray out = l->dev.all().mid(l->pos); int e = out.indexOf("\r\n\r\n"); if (!c.check(e > 0 && out.startsWith(q.version + " " + num(m.status) + " "), "within", where + "the head written before the exception is missing: " + show(out))) return;
			QByteArray body = out.mid(e + 4), want; for (const QByteArray& x : m.accepted) want += m.chunked ? QByteArray::number(x.size(), 16) + "\r\n" + x + "\r\n" : x; c.eq(m.chunked ? asciiLower(body) : body, m.chunked ? asciiLower(want) : want, where + "content written before the exception"); return;
		}
		Plan p = a.plan; if (a.kind == Act::Throw) { p = Plan(); p.status = 500; } else if (a.kind == Act::Decline) { p = Plan(); p.status = 501; p.content = "declined"; }
		Model m = modelOf(q, p); ParseResult pr = readResponse(l->dev.all(), l->pos, head, l->closed, r, err); if (pr != Ok) { c.fail("response", where + "the client got no whole response: " + err + " \"" + show(l->dev.all().mid(l->pos)) + "\""); return; }
		if (a.kind == Act::Throw) { c.eqn(r.status, 500, where + "status after an exception"); if (c.failed()) return; continue; }
		if (!compareResponse(c, r, q, p, m, where)) return;
	}
	if (c.failed()) return;
	c.eqn(w.seen.size(), n, "calls of the script");
	// The engine still works.
	ownScope(w, c, "");
	c.check(w.engine.evaluate("6 * 7").toInt32() == 42 && !w.engine.hasUncaughtException(), "engine", "the engine does not evaluate scripts any more");
}

//
// Script files.
//
struct Version { enum Kind { Good, Syntax, ThrowError, ThrowOther, Missing, NotFunction, RewritesItself } kind; int id; bool has[2]; qint64 mtime; Version() : kind(Good), id(0), mtime(0) { has[0] = has[1] = true; } };

QByteArray versionCode(Gen& g, const Version& v)
{
	static const char* names[] = {"handle", "other"}; QByteArray s = "var count = 0;\n";
	for (int i = 0; i < 2; ++i)
	{
		if (!v.has[i]) { if (g.chance(1, 2)) s += QByteArray("var ") + names[i] + " = " + g.pickB({"1", "'x'", "{}", "null"}) + ";\n"; continue; }
		QByteArray body = "(request) { record(request); request.nativeRequest.writeResponseString(200, {}, 'v" + num(v.id) + " " + names[i] + " ' + ++count); return true; }\n";
		s += g.chance(1, 2) ? QByteArray("function ") + names[i] + body : QByteArray("var ") + names[i] + " = function" + body + ";";
	}
	switch (v.kind)
	{
	case Version::Syntax: s += g.pickB({"function (", "}", "var var;", "\"unterminated"}); break;
	case Version::ThrowError: s += g.pickB({"throw new Error('at load');", "undefined.x;", "noSuch();"}); break;
	case Version::ThrowOther: s += g.pickB({"throw 'text';", "throw 1;", "throw 0;", "throw null;", "throw {};"}); break;
	case Version::RewritesItself: s += "loading();\n"; break;
	default: break;
	}
	return s;
}

void files(Gen& g, Ctx& c)
{
	World w; setUp(w); QTemporaryDir dir; static const char* names[] = {"handle", "other", "neither"}; c.label("script file");
	Version disk[2]; bool exists[2] = {false, false}; int ids = 0; qint64 clock = 1500000000000LL; QSet<qint64> usedTimes;
	auto path = [&](int f) { return dir.path() + (f == 0 ? "/a.js" : "/b.js"); };
	auto put = [&](int f, const Version& v, const QByteArray& code) {
		QFile x(path(f)); if (!x.open(QIODevice::WriteOnly | QIODevice::Truncate)) { c.fail("harness", "cannot write the script"); return; } x.write(code); x.close();
		struct timespec t[2]; t[0].tv_sec = t[1].tv_sec = v.mtime / 1000; t[0].tv_nsec = t[1].tv_nsec = (v.mtime % 1000) * 1000000; utimensat(AT_FDCWD, QFile::encodeName(path(f)).constData(), t, 0); disk[f] = v; exists[f] = true;
	};
	auto mtime = [&]() { qint64 t; do { switch (g.u(0, 3)) { case 0: t = clock + g.u(1, 5); break; case 1: t = clock - qint64(g.u(1, 1000000)); break; default: t = clock + g.u(1000, 100000); } clock = t; } while (usedTimes.contains(t)); usedTimes << t; return t; };
	auto write = [&](int f) {
		Version v; v.id = ++ids; v.kind = Version::Kind(g.weighted({12, 2, 2, 2, 2, 0, 1})); if (v.kind == Version::Missing) v.has[g.u(0, 1)] = false; qint64 before = disk[f].mtime; v.mtime = mtime(); if (exists[f] && v.mtime < before) c.label("older modification time");
		static const char* kinds[] = {"", " with a syntax error", " throwing an error", " throwing something", " without a function", "", " rewriting itself"}; c.desc(" version " + num(v.id) + kinds[v.kind] + " into " + (f ? "b" : "a") + " at " + num(v.mtime) + "\n"); put(f, v, versionCode(g, v));
	};
	int file = int(g.u(0, 1)), fn = 0; bool reload = g.chance(1, 2); if (!g.chance(1, 8)) write(file);
	HttpHandlerQtScriptFile h(&w.engine, path(file), names[fn], reload); c.desc(QByteArray(" handler of ") + (file ? "b" : "a") + (reload ? ", reloading" : "") + "\n");
	if (h.autoReload() != reload || h.fileName() != path(file) || h.functionName() != names[fn] || h.engine() != &w.engine) { c.fail("settings", "the settings given are not those kept"); return; }
	// What is loaded, from which file and name; count since then.
	bool loaded = false; Version cur; int curFile = -1, curFn = -1, count = 0, requests = 0; bool unsure = false;
	Line* l = 0; struct Del { Line*& l; ~Del() { delete l; } } del{l}; auto fresh = [&]() { delete l; l = new Line; l->handler = &h; l->w = &w; l->c = &c; };
	int n = 2 + int(g.size(20)); bool pendingRewrite = false; Version next;
	w.loading = [&]() { if (!pendingRewrite) return; pendingRewrite = false; put(file, next, versionCode(g, next)); };
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		switch (g.weighted({8, 4, 1, 1, 1, 1, 1}))
		{
		case 0:
		{
			bool mustLoad = !loaded || file != curFile || fn != curFn, may = false;
			if (!mustLoad && reload && exists[file] && disk[file].mtime != cur.mtime) { mustLoad = true; c.label("reloaded"); }
			if (!mustLoad && reload && !exists[file]) { may = true; c.label("loaded file gone"); }
			if (!mustLoad && !reload && exists[file] && disk[file].mtime != cur.mtime) c.label("changed without reload");
			Version v = disk[file]; QByteArray want; bool error = false;
			if (mustLoad)
			{
				bool ok = exists[file] && fn < 2 && v.has[fn] && (v.kind == Version::Good || v.kind == Version::Missing || v.kind == Version::RewritesItself);
				pendingRewrite = exists[file] && v.kind == Version::RewritesItself; if (pendingRewrite) { next = Version(); next.id = ++ids; next.mtime = mtime(); c.label("changed while it is loaded"); }
				if (ok) { loaded = true; cur = v; curFile = file; curFn = fn; count = 0; }
				else { error = true; c.label(!exists[file] ? "missing file" : v.kind == Version::Syntax ? "syntax error" : v.kind == Version::ThrowError ? "error at load" : v.kind == Version::ThrowOther ? "throws a value at load" : "missing function"); if (file != curFile || fn != curFn) loaded = false; }
			}
			if (!error) want = "v" + num(cur.id) + " " + names[curFn] + " " + num(count + 1);
			fresh(); w.acts.clear(); Act a; w.acts << a; l->queue << 0; Req q = genScriptRequest(g, false); q.method = "GET"; int seen = w.seen.size(); l->at = 0;
			// The handler is called directly: an error is accepted without the script being called.
			bool r = false, called = false; QObject::disconnect(&l->conn, SIGNAL(requestReady(Pillow::HttpConnection*)), 0, 0); QObject::connect(&l->conn, &HttpConnection::requestReady, l, [&](HttpConnection* x) { called = true; r = h.handleRequest(x); });
			++requests; c.desc(" request -> " + (error ? QByteArray("500") : want) + "\n"); l->dev.feed(q.wire()); QByteArray where = "request " + num(requests) + ": "; if (c.failed()) return;
			Resp rs; QByteArray err; settle(1); if (!called) { c.fail("harness", "not announced: \"" + show(q.wire()) + "\" -> " + show(l->dev.all())); return; }
			if (readResponse(l->dev.all(), l->pos, false, true, rs, err) != Ok) { c.fail("response", where + "the client got no whole response: " + err); return; }
			c.check(r, "accepted", where + "declined"); if (w.engine.hasUncaughtException()) { c.fail("engine", where + "an exception was left in the engine"); return; } ownScope(w, c, where);
			if (may && rs.status == 500) { unsure = true; break; }
			if (error) { c.eqn(rs.status, 500, where + "status"); c.eqn(w.seen.size() - seen, 0, where + "calls of the script"); if (pendingRewrite) pendingRewrite = false; break; }
			c.eqn(rs.status, 200, where + "status"); c.eq(rs.body, want, where + "content"); c.eqn(w.seen.size() - seen, 1, where + "calls of the script"); if (c.failed()) return;
			compareObserved(c, w.seen.last(), q, &l->conn, where); ++count;
			break;
		}
		case 1: write(g.chance(4, 5) ? file : 1 - file); break;
		case 2: { int f = g.chance(2, 3) ? file : 1 - file; if (exists[f]) { QFile::remove(path(f)); exists[f] = false; c.desc(QByteArray(" removes ") + (f ? "b" : "a") + "\n"); } break; }
		case 3: file = 1 - file; h.setFileName(path(file)); c.label("file name changed"); c.desc(QByteArray(" handler of ") + (file ? "b" : "a") + "\n"); loaded = false; break;
		case 4: fn = int(g.weighted({3, 3, 1})); if (fn != curFn) loaded = false; h.setFunctionName(names[fn]); c.label("function name changed"); c.desc(QByteArray(" function ") + names[fn] + "\n"); break;
		case 5: reload = !reload; h.setAutoReload(reload); c.label("automatic reload changed"); c.desc(QByteArray(" reload ") + (reload ? "on" : "off") + "\n"); break;
		default: settle(1);
		}
	}
	(void)unsure; if (requests > 1) c.nontrivial();
	c.check(w.engine.evaluate("6 * 7").toInt32() == 42, "engine", "the engine does not evaluate scripts any more");
}

void c23(Gen& g, Ctx& c) { if (g.chance(2, 5)) files(g, c); else functions(g, c); }

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C23", "Script functions: one to seven requests, kept on one connection, pipelined or on connections of their own, with percent-encoded text anywhere; for each, the script answers at once or piecewise through the native request, declines, throws (errors, strings, false values, objects that throw themselves) before, within or after its answer, or leaves the answer for later. Script files: histories of requests, writes (good, broken and throwing scripts, with newer and older modification times, also while they are loaded), removals and changed settings. Oracle: what the script recorded against the request sent, the model of the answer, and a model of which version is loaded. Non-trivial: more than one request.",
			50000, 300000, c23, 60, 8, {"Strings for QByteArray parameters are not converted by QtScript: byte content is given as byte arrays.", "A changed script has another modification time.", "What becomes of percent signs that begin no escape is not specified.", "Header names differ in an object and are no numbers."}, {"answers at once", "answers piecewise", "declines", "throws", "throws a string", "throws a false value", "throws after the answer", "throws within the answer", "answers and returns false", "answers later", "pipelined", "function set later", "script file", "reloaded", "changed without reload", "missing file", "syntax error", "error at load", "throws a value at load", "missing function", "older modification time", "changed while it is loaded", "file name changed", "function name changed"}},
	};
	return pbt::main(argc, argv, checks);
}
