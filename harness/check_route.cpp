// C11 the router, C12 handler composition, C13 the log handler.
#include "plan.h"
#include "fakeclock.h"
#include "HttpHandlerSimpleRouter.h"
#include <QtCore/QBuffer>
#include <QtCore/QDateTime>
#include <QtCore/QSet>
#include <QtCore/QTimer>
#include <QtNetwork/QHostAddress>
#include <functional>
#include <unistd.h>

using namespace Pillow;

namespace {

typedef QPair<QString, QString> Param;
typedef QVector<Param> Params;
Params paramsOf(HttpConnection* c) { Params p; const HttpParamCollection& q = c->requestParams(); for (int i = 0; i < q.size(); ++i) p << Param(q.at(i).first, q.at(i).second); return p; }
QByteArray showParams(const Params& p) { QByteArray r = "{"; for (const Param& x : p) r += show(x.first.toUtf8(), 60) + "=" + show(x.second.toUtf8(), 80) + ", "; return r + "}"; }
QString refText(const QByteArray& raw) { QByteArray b = refPercentDecode(raw); return QString::fromUtf8(b.constData(), b.size()); }
Params queryParams(const QByteArray& q)
{
	Params p; if (q.isEmpty()) return p;
	// A trailing '&' does not start another piece.
	QList<QByteArray> pieces = q.split('&'); if (q.endsWith('&')) pieces.removeLast();
	for (const QByteArray& x : pieces) { int e = x.indexOf('='); p << (e < 0 ? Param(refText(x), QString()) : Param(refText(x.left(e)), refText(x.mid(e + 1)))); }
	return p;
}
void setParam(Params& p, const QString& n, const QString& v) { for (Param& x : p) if (x.first.compare(n, Qt::CaseInsensitive) == 0) { x = Param(n, v); return; } p << Param(n, v); }
bool getParam(const Params& p, const QString& n, QString& v) { for (const Param& x : p) if (x.first.compare(n, Qt::CaseInsensitive) == 0) { v = x.second; return true; } return false; }

struct Invocation { int route; Params params; QString arg; };

class Target : public HttpHandler {
	Q_OBJECT
public:
	int id; QVector<Invocation>* log; bool accept, answer;
	Target(int i, QVector<Invocation>* l) : id(i), log(l), accept(true), answer(true) {}
	void hit(HttpConnection* c) { Invocation v; v.route = id; v.params = paramsOf(c); *log << v; if (answer && accept) c->writeResponse(200, HttpHeaderCollection() << HttpHeader("X-Target", num(id)), "target " + num(id)); }
	bool handleRequest(HttpConnection* c) { hit(c); return accept; }
	Q_INVOKABLE void invokable(Pillow::HttpConnection* c) { hit(c); }
public slots:
	void someSlot(Pillow::HttpConnection* c) { hit(c); }
	bool boolSlot(Pillow::HttpConnection* c) { hit(c); return true; }
signals:
	void unrelated(); void asked(Pillow::HttpConnection* c);
};

class Sink : public QObject {
	Q_OBJECT
public:
	HttpHandler* handler; int ready, completed; QVector<int> results; PipeDevice* out; bool touched; std::function<void(HttpConnection*)> before;
	Sink(HttpConnection* c, HttpHandler* h, PipeDevice* o) : handler(h), ready(0), completed(0), out(o), touched(false)
	{
		connect(c, SIGNAL(requestReady(Pillow::HttpConnection*)), this, SLOT(go(Pillow::HttpConnection*)));
		connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(done()));
	}
public slots:
	void go(Pillow::HttpConnection* c)
	{
		++ready; if (before) before(c);
		int n = out->all().size(); HttpConnection::State s = c->state();
		bool r = handler->handleRequest(c); results << r;
		if (!r)
		{
			if (out->all().size() != n || c->state() != s) touched = true;
			c->writeResponse(501, HttpHeaderCollection(), "declined");
		}
	}
	void done() { ++completed; }
};

//
// C11
//
struct Piece { enum Kind { Text, Name, Splat } kind; QString text; };
struct RouteSpec { QByteArray method; QString pattern; QVector<Piece> pieces; int kind; bool staticRoute; int status; QByteArray content; QObject* target; };

bool wordChar(QChar ch) { return ch.isLetterOrNumber() || ch.isMark() || ch == QLatin1Char('_'); }

// Splits a pattern into its pieces. '.' stays the regular expression's any character.
QVector<Piece> piecesOf(const QString& p)
{
	QVector<Piece> v; QString text;
	for (int i = 0; i < p.size();)
	{
		QChar ch = p.at(i); int e = i + 1; while (e < p.size() && wordChar(p.at(e))) ++e;
		if ((ch == ':' || ch == '*') && e > i + 1)
		{
			if (!text.isEmpty()) { Piece t = {Piece::Text, text}; v << t; text.clear(); }
			Piece t = {ch == ':' ? Piece::Name : Piece::Splat, p.mid(i + 1, e - i - 1)}; v << t; i = e;
		}
		else { text += ch; ++i; }
	}
	if (!text.isEmpty()) { Piece t = {Piece::Text, text}; v << t; }
	return v;
}
bool textMatches(const QString& t, const QString& s, int at) { if (at + t.size() > s.size()) return false; for (int i = 0; i < t.size(); ++i) if (t.at(i) != '.' && t.at(i) != s.at(at + i)) return false; return true; }
// Is there a way to match s from (piece i, position at)?
bool matches(const QVector<Piece>& v, int i, const QString& s, int at, QVector<QSet<int> >& dead)
{
	if (i == v.size()) return at == s.size();
	if (dead[i].contains(at)) return false;
	bool r = false;
	if (v.at(i).kind == Piece::Text) r = textMatches(v.at(i).text, s, at) && matches(v, i + 1, s, at + v.at(i).text.size(), dead);
	else if (v.at(i).kind == Piece::Splat) { for (int e = at; e <= s.size() && !r; ++e) r = matches(v, i + 1, s, e, dead); }
	else for (int e = at; e < s.size() && !r; ) { if (!(wordChar(s.at(e)) || s.at(e) == '-')) break; ++e; r = matches(v, i + 1, s, e, dead); }
	if (!r) dead[i].insert(at);
	return r;
}
bool matches(const QVector<Piece>& v, const QString& s) { QVector<QSet<int> > dead(v.size() + 1); return matches(v, 0, s, 0, dead); }
// Do the captured texts spell the path?
bool spells(const QVector<Piece>& v, const QVector<QString>& caps, const QString& s)
{
	int at = 0, k = 0;
	for (const Piece& p : v)
	{
		if (p.kind == Piece::Text) { if (!textMatches(p.text, s, at)) return false; at += p.text.size(); continue; }
		const QString& c = caps.at(k++); if (s.mid(at, c.size()) != c) return false;
		if (p.kind == Piece::Name) { if (c.isEmpty()) return false; for (QChar ch : c) if (!(wordChar(ch) || ch == '-')) return false; }
		at += c.size();
	}
	return at == s.size();
}

QString genPattern(Gen& g)
{
	static const std::vector<QString> words = {"a", "b", "first", "c-d", "e_f", "Name", QString::fromUtf8("\xc3\xa9t\xc3\xa9"), "1", "x y", "f.html", "=", "&", "~", "%"};
	static const std::vector<QString> names = {"p", "q", "name", "id", "with_param", "A", "P", QString::fromUtf8("\xc3\xa9")};
	QString p; int n = 1 + int(g.size(4));
	for (int i = 0; i < n; ++i)
	{
		if (i == 0 ? !g.chance(1, 12) : !g.chance(1, 10)) p += "/";
		switch (g.weighted({5, 4, 2, 1, 1}))
		{
		case 0: p += g.pick(words); break;
		case 1: p += ":" + g.pick(names); break;
		case 2: p += "*" + g.pick(names); break;
		case 3: p += g.pick(words) + ":" + g.pick(names); if (g.chance(1, 2)) p += "." + g.pick(words); break;
		default: p += ":" + g.pick(names) + "/*" + g.pick(names); break;
		}
	}
	if (g.chance(1, 8)) p += "/";
	if (g.chance(1, 30)) p = "/";
	return p;
}
QString instantiate(Gen& g, const QVector<Piece>& v)
{
	static const std::vector<QString> values = {"a", "b", "5", "x-y_z", "first", "Name", QString::fromUtf8("\xc3\xa9"), "a.b", "a b", "", "a/b", "--", "a+b", "=", "x&y", "?", "#", "%41", "//", QString::fromUtf8("\xe2\x82\xac")};
	QString s; for (const Piece& p : v) { if (p.kind == Piece::Text) { for (QChar ch : p.text) s += ch == '.' && g.chance(1, 3) ? QChar('z') : ch; } else if (p.kind == Piece::Name) s += values.at(g.chance(4, 5) ? g.u(0, 6) : g.u(0, uint32_t(values.size() - 1))); else s += g.pick(values); }
	return s;
}
QByteArray encodePath(Gen& g, const QString& s, bool keepSlashes)
{
	QByteArray u = s.toUtf8(), r; char t[8]; bool extra = g.chance(1, 4);
	for (int i = 0; i < u.size(); ++i)
	{
		unsigned char ch = u.at(i); bool plain = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || strchr("-._~/=&+:", ch);
		if (ch >= 128 && g.chance(1, 3)) plain = true;
		if (i == 0 && ch == '/') { r += '/'; continue; }
		if (ch == 0 || !plain || (extra && (ch != '/' || !keepSlashes) && g.chance(1, 5))) { snprintf(t, sizeof t, g.chance(1, 2) ? "%%%02X" : "%%%02x", ch); r += t; } else r += char(ch);
	}
	if (!r.startsWith('/')) r.prepend('/');
	return r;
}

void c11(Gen& g, Ctx& c)
{
	HttpHandlerSimpleRouter router; QVector<Invocation> log; QVector<RouteSpec> routes; QList<Target*> targets; // Targets outlive the router's use of them.
	struct Cleaner { QList<Target*>& t; ~Cleaner() { qDeleteAll(t); } } cleaner = {targets};
	bool methodParam = false; bool ret405 = false, ret404 = false;
	auto addRoute = [&]() {
		RouteSpec r; r.pattern = !routes.isEmpty() && g.chance(1, 3) ? routes.at(int(g.u(0, uint32_t(routes.size() - 1)))).pattern : genPattern(g); r.pieces = piecesOf(r.pattern);
		r.method = g.pickB({"", "", "GET", "POST", "get", "PUT", "DELETE", "Patch", "X"}); r.kind = int(g.u(0, 7)); r.staticRoute = r.kind == 1; r.status = 200 + int(g.u(0, 4)) * 100 - 0; if (r.status == 500 && false) r.status = 200;
		static const int st[] = {200, 201, 301, 404, 500}; r.status = st[g.u(0, 4)]; r.content = "static " + num(routes.size());
		int id = routes.size(); Target* t = new Target(id, &log); targets << t; r.target = t;
		if (g.chance(1, 10))
		{
			// Without an object or a member nothing is added.
			c.label("route without target"); c.desc(" a route without a target: " + r.method + " " + r.pattern.toUtf8() + "\n");
			switch (g.u(0, 3)) { case 0: router.addRoute(r.method, r.pattern, static_cast<QObject*>(0), SLOT(someSlot(Pillow::HttpConnection*))); break; case 1: router.addRoute(r.method, r.pattern, t, static_cast<const char*>(0)); break; case 2: router.addRoute(r.method, r.pattern, t, ""); break; default: router.addRoute(r.pattern, static_cast<QObject*>(t), static_cast<const char*>(0)); break; }
		}
		bool none = r.method.isEmpty() && g.chance(1, 2);
		switch (r.kind)
		{
		case 0: if (none) router.addRoute(r.pattern, static_cast<HttpHandler*>(t)); else router.addRoute(r.method, r.pattern, static_cast<HttpHandler*>(t)); break;
		case 1: if (none) router.addRoute(r.pattern, r.status, HttpHeaderCollection() << HttpHeader("X-Target", num(id)), r.content); else router.addRoute(r.method, r.pattern, r.status, HttpHeaderCollection() << HttpHeader("X-Target", num(id)), r.content); break;
		case 2: { std::function<void(HttpConnection*)> f = [t](HttpConnection* q) { t->hit(q); }; if (none) router.addRoute(r.pattern, f); else router.addRoute(r.method, r.pattern, f); break; }
		case 3: if (none) router.addRoute(r.pattern, t, SLOT(someSlot(Pillow::HttpConnection*))); else router.addRoute(r.method, r.pattern, t, SLOT(someSlot(Pillow::HttpConnection*))); break;
		case 4: router.addRoute(r.method, r.pattern, t, "someSlot"); break;
		case 5: router.addRoute(r.method, r.pattern, t, "invokable(Pillow::HttpConnection*)"); c.label("invokable method"); break;
		case 7: QObject::connect(t, &Target::asked, t, &Target::someSlot); router.addRoute(r.method, r.pattern, t, "asked(Pillow::HttpConnection*)"); c.label("signal"); break;
		default: router.addRoute(r.method, r.pattern, t, g.chance(1, 2) ? "boolSlot(Pillow::HttpConnection*)" : "invokable"); break;
		}
		routes << r; c.desc(" route " + num(id) + ": " + r.method + " " + r.pattern.toUtf8() + ", kind " + num(r.kind) + "\n");
	};
	int nr = int(g.size(8)); for (int i = 0; i < nr; ++i) addRoute();
	PipeDevice dev; HttpConnection conn; Sink sink(&conn, &router, &dev); conn.initialize(&dev, &dev);
	int n = 1 + int(g.size(10)), pos = 0;
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		if (g.chance(1, 8)) addRoute();
		if (i == 0 ? g.chance(2, 3) : g.chance(1, 6)) { methodParam = g.chance(1, 2); ret404 = g.chance(1, 2); ret405 = g.chance(1, 2); router.setAcceptsMethodParam(methodParam); router.setUnmatchedRequestAction(ret404 ? HttpHandlerSimpleRouter::Return4xxResponse : HttpHandlerSimpleRouter::Passthrough); router.setMethodMismatchAction(ret405 ? HttpHandlerSimpleRouter::Return4xxResponse : HttpHandlerSimpleRouter::Passthrough); c.desc(QByteArray(" options:") + (methodParam ? " _method" : "") + (ret404 ? " 404" : "") + (ret405 ? " 405" : "") + "\n"); }
		Req q; q.method = g.pickB({"GET", "GET", "POST", "PUT", "DELETE", "PATCH", "X", "OPTIONS"}); q.version = "HTTP/1.1";
		QString path;
		if (!routes.isEmpty() && g.chance(5, 6)) { path = instantiate(g, routes.at(int(g.u(0, uint32_t(routes.size() - 1)))).pieces); if (g.chance(1, 6)) { switch (g.u(0, 3)) { case 0: path += "/"; break; case 1: path += "x"; break; case 2: path.prepend("/a"); break; default: path.chop(1); break; } } }
		else path = instantiate(g, piecesOf(genPattern(g)));
		q.path = encodePath(g, path, g.chance(5, 6)); q.uri = q.path;
		if (g.chance(1, 2))
		{
			int k = 1 + int(g.size(3)); for (int j = 0; j < k; ++j) { if (j) q.query += "&"; q.query += g.pickB({"p=1", "q=z", "Name=%C3%A9", "name", "P=", "x=y=z", "_method=POST", "_method=delete", "_METHOD=put", "_method=", "_method", "_method=NOPE", "id=a%26b", "="}); }
			q.uri += "?" + q.query;
		}
		if (g.chance(1, 5)) { q.body = "_method=PUT&p=body"; q.headers << Hdr("Content-Length", num(q.body.size())); }
		// What must happen.
		QByteArray dec = refPercentDecode(q.path); QString decoded = QString::fromUtf8(dec.constData(), dec.size());
		Params params = queryParams(q.query); QByteArray method = q.method; QString mp;
		if (methodParam && getParam(params, "_method", mp) && !mp.isEmpty()) { method = mp.toLatin1(); c.label("method parameter used"); }
		int want = -1; QVector<int> matched;
		for (int k = 0; k < routes.size() && want < 0; ++k) if (matches(routes.at(k).pieces, decoded)) { matched << k; if (routes.at(k).method.isEmpty() || ieq(routes.at(k).method, method)) want = k; }
		c.desc(" " + q.method + " " + q.uri + " -> " + (want >= 0 ? "route " + num(want) : matched.isEmpty() ? QByteArray("none") : QByteArray("method mismatch")) + "\n");
		const bool gone = want >= 0 && routes.at(want).kind != 1 && routes.at(want).kind != 2 && g.chance(1, 12);
		int before = log.size();
		if (gone)
		{
			// The target is destroyed first: nobody else may be called in its place.
			c.label("target destroyed"); c.desc(" its target is destroyed\n"); QObject* o = routes.at(want).target; for (int k = 0; k < targets.size(); ++k) if (targets.at(k) == o) targets.removeAt(k--); delete o;
			PipeDevice dev2; HttpConnection conn2; Sink sink2(&conn2, &router, &dev2); conn2.initialize(&dev2, &dev2); dev2.feed(q.wire()); settle(1);
			c.eqn(sink2.results.size(), 1, "requests offered to the router"); c.eqn(log.size(), before, "targets called for a route whose target is gone");
			return;
		}
		dev.feed(q.wire()); settle(1);
		Resp r; QByteArray err; if (readResponse(dev.all(), pos, false, false, r, err) != Ok) { c.fail("response", "request " + num(i) + " (" + q.method + " " + q.uri + "): " + err + (want >= 0 ? ", expected route " + num(want) : QByteArray())); return; }
		if (!c.eqn(sink.results.size(), i + 1, "requests offered to the router")) return;
		QByteArray where = "request " + num(i) + " (" + q.method + " " + q.uri + "): ";
		QByteArray got = headerValue(r.headers, "x-target");
		if (want >= 0)
		{
			c.label("routed"); const RouteSpec& w = routes.at(want); int names = 0; for (const Piece& p : w.pieces) if (p.kind != Piece::Text) ++names;
			if (matched.size() > 1) c.label("several patterns match");
			c.eq(got, num(want), where + "route that answered");
			c.eqn(sink.results.last(), 1, where + "handleRequest");
			if (c.failed()) return;
			if (w.staticRoute) { c.eqn(r.status, w.status, where + "status"); c.eq(r.body, w.content, where + "content"); c.eqn(log.size(), before, where + "other targets called"); }
			else
			{
				if (!c.eqn(log.size(), before + 1, where + "targets called")) return;
				const Invocation& v = log.last(); c.eqn(v.route, want, where + "target called");
				// The captured texts.
				QVector<QString> caps; QStringList order; bool repeated = false; Params expected = params;
				for (const Piece& p : w.pieces) if (p.kind != Piece::Text) { QString val; if (!getParam(v.params, p.text, val)) { c.fail("parameter", where + "parameter '" + p.text.toUtf8() + "' is not set, parameters " + showParams(v.params)); return; } for (const QString& o : order) if (o.compare(p.text, Qt::CaseInsensitive) == 0) repeated = true; order << p.text; caps << val; }
				if (names) { c.label("with parameters"); c.nontrivial(); }
				if (names > 1) c.label("several parameters");
				if (!repeated)
				{
					c.check(spells(w.pieces, caps, decoded), "captures", where + "the parameters do not spell the path for pattern " + w.pattern.toUtf8() + ": " + showParams(v.params));
					for (int k = 0; k < order.size(); ++k) setParam(expected, order.at(k), caps.at(k));
					auto byName = [](const Param& x, const Param& y) { return x.first < y.first; }; Params gotParams = v.params; std::stable_sort(gotParams.begin(), gotParams.end(), byName); std::stable_sort(expected.begin(), expected.end(), byName);
					if (expected != gotParams) c.fail("parameters", where + "parameters " + showParams(v.params) + ", expected " + showParams(expected));
				}
			}
		}
		else
		{
			c.eqn(log.size(), before, where + "targets called"); c.eq(got, "", where + "route that answered");
			bool respond = matched.isEmpty() ? ret404 : ret405;
			c.eqn(sink.results.last(), respond ? 1 : 0, where + "handleRequest");
			c.eqn(r.status, respond ? (matched.isEmpty() ? 404 : 405) : 501, where + "status");
			if (respond && !matched.isEmpty()) { QByteArray allow; for (int k : matched) allow += (allow.isEmpty() ? "" : ", ") + routes.at(k).method; c.eq(headerValue(r.headers, "allow"), allow, where + "Allow"); c.label("405"); }
			else if (respond) c.label("404");
			c.label(matched.isEmpty() ? "no pattern matches" : "method mismatch");
		}
		c.check(!sink.touched, "declined", where + "something was written for a declined request");
	}
}

//
// C12
//
struct Node { enum Kind { Stack, Rec, Fixed, NotFound, Func, EmptyFunc, Other, LogH } kind; int id; QObject* obj; QVector<Node*> children; bool accept; int status; QByteArray content; bool removed, later; Node() : kind(Other), id(0), obj(0), accept(false), status(200), removed(false), later(false) {} ~Node() { qDeleteAll(children); } };

Node* genNode(Gen& g, QObject* parent, int depth, int& ids, QVector<Invocation>* log, QVector<Node*>& all)
{
	Node* n = new Node; n->id = ids++; n->kind = Node::Kind(depth > 2 ? g.u(1, 7) : g.weighted({2, 5, 1, 1, 1, 1, 2, 1}));
	switch (n->kind)
	{
	case Node::Stack: { HttpHandlerStack* s = new HttpHandlerStack(parent); n->obj = s; int k = int(g.size(5)); for (int i = 0; i < k; ++i) n->children << genNode(g, s, depth + 1, ids, log, all); break; }
	case Node::Rec: { Target* t = new Target(n->id, log); t->setParent(parent); n->accept = t->accept = g.chance(1, 4); n->later = g.chance(1, 4); t->answer = !n->later; n->obj = t; break; }
	case Node::Fixed: { n->status = g.chance(1, 2) ? 200 : 403; n->content = g.chance(1, 4) ? QByteArray() : "fixed " + num(n->id); n->obj = new HttpHandlerFixed(n->status, n->content, parent); break; }
	case Node::NotFound: n->obj = new HttpHandler404(parent); break;
	case Node::Func: { int id = n->id; bool answer = true; (void)answer; n->obj = new HttpHandlerFunction([id, log](HttpConnection* c) { Invocation v; v.route = id; *log << v; c->writeResponse(200, HttpHeaderCollection(), "target " + num(id)); }, parent); break; }
	case Node::EmptyFunc: n->obj = new HttpHandlerFunction(parent); break;
	case Node::LogH: { QBuffer* b = new QBuffer; b->open(QIODevice::WriteOnly); HttpHandlerLog* l = new HttpHandlerLog(b, parent); b->setParent(l); n->obj = l; break; }
	default: n->obj = g.chance(1, 2) ? new QObject(parent) : static_cast<QObject*>(new QTimer(parent)); break;
	}
	all << n; return n;
}
QByteArray nodeText(const Node* n)
{
	static const char* const k[] = {"stack", "rec", "fixed", "404", "function", "no-function", "other", "log"};
	QByteArray t = QByteArray(k[n->kind]) + num(n->id) + (n->accept ? n->later ? "+later" : "+" : ""); if (n->kind == Node::Stack) { t += "("; for (const Node* x : n->children) t += nodeText(x) + " "; t += ")"; } return t;
}
struct Answer { int status; QByteArray body; bool later; Answer() : status(0), later(false) {} };
// Who is asked, in order, and who answers.
bool walk(const Node* n, QVector<int>& asked, Answer& a, const Req& q)
{
	switch (n->kind)
	{
	case Node::Stack: for (const Node* x : n->children) if (walk(x, asked, a, q)) return true; return false;
	case Node::Rec: asked << n->id; if (n->accept) { a.status = 200; a.body = "target " + num(n->id); a.later = n->later; } return n->accept;
	case Node::Fixed: a.status = n->status; a.body = n->content; return true;
	case Node::NotFound: a.status = 404; a.body = q.path; return true;
	case Node::Func: asked << n->id; a.status = 200; a.body = "target " + num(n->id); return true;
	default: return false;
	}
}

void c12(Gen& g, Ctx& c)
{
	QVector<Invocation> log; QVector<Node*> all; int ids = 0; QObject holder;
	HttpHandlerStack* top = new HttpHandlerStack(&holder); Node root; root.kind = Node::Stack; root.obj = top; root.id = -1;
	int k = 1 + int(g.size(5)); for (int i = 0; i < k; ++i) root.children << genNode(g, top, 1, ids, &log, all);
	PipeDevice dev; HttpConnection conn; Sink sink(&conn, top, &dev); conn.initialize(&dev, &dev);
	int n = 1 + int(g.size(10)), pos = 0;
	c.desc(nodeText(&root) + "\n");
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		// Settings and the tree may change between requests.
		if (i > 0 && g.chance(1, 2))
		{
			Node* x = all.isEmpty() ? 0 : all.at(int(g.u(0, uint32_t(all.size() - 1))));
			switch (g.u(0, 5))
			{
			case 5: { int at = int(g.u(0, uint32_t(root.children.size() - 1))); Node* y = root.children.takeAt(at); y->obj->setParent(0); y->obj->setParent(top); root.children << y; c.label("child moved"); break; }
			case 0: for (Node* y : all) if (y->kind == Node::Fixed && g.chance(1, 2)) { 
				HttpHandlerFixed* f = static_cast<HttpHandlerFixed*>(y->obj); int announced = 0; bool isNew = true; QObject scope;
				int oldStatus = y->status; QByteArray oldContent = y->content;
				if (g.chance(1, 2)) y->status = int(g.pick(std::vector<int>{200, 201, 404, 503})); else if (g.chance(3, 4)) y->content = g.bytes(g.size(2000)); else if (!y->content.isEmpty()) { int at = int(g.u(0, uint32_t(y->content.size() - 1))); y->content[at] = char(y->content.at(at) ^ 0x20); }
				QObject::connect(f, &HttpHandlerFixed::changed, &scope, [&] { ++announced; if (f->statusCode() != y->status || f->content() != y->content) isNew = false; });
				// As a property, or by the setter.
				if (g.chance(1, 4)) { f->setProperty("statusCode", y->status); f->setProperty("content", y->content); } else if (g.chance(1, 2)) { f->setStatusCode(y->status); f->setContent(y->content); } else { f->setContent(y->content); f->setStatusCode(y->status); }
				bool differs = y->status != oldStatus || y->content != oldContent;
				c.eqn(announced, differs ? 1 : 0, QByteArray("changed() signals of a fixed handler whose settings ") + (differs ? "changed" : "stayed the same")); c.check(isNew, "changed", "changed() was emitted while the old value could still be read");
				c.eqn(f->property("statusCode").toInt(), y->status, "statusCode property"); c.eq(f->property("content").toByteArray(), y->content, "content property");
				c.label(differs ? "settings changed" : "settings set to what they are"); }
				break;
			case 1: if (x && x->kind == Node::Rec) { x->accept = !x->accept; static_cast<Target*>(x->obj)->accept = x->accept; } break;
			case 2: if (x && x->kind == Node::Stack) { x->children << genNode(g, x->obj, 3, ids, &log, all); } else root.children << genNode(g, top, 2, ids, &log, all); c.label("child added"); break;
			case 3: if (x && x->kind == Node::EmptyFunc) { int id = x->id; QVector<Invocation>* l = &log; static_cast<HttpHandlerFunction*>(x->obj)->setFunction([id, l](HttpConnection* q) { Invocation v; v.route = id; *l << v; q->writeResponse(200, HttpHeaderCollection(), "target " + num(id)); }); x->kind = Node::Func; } else if (x && x->kind == Node::Func) { static_cast<HttpHandlerFunction*>(x->obj)->setFunction(std::function<void(HttpConnection*)>()); x->kind = Node::EmptyFunc; } break;
			default: // A child of the top stack goes away.
				if (root.children.size() > 1) { int at = int(g.u(0, uint32_t(root.children.size() - 1))); Node* y = root.children.at(at); if (y->kind != Node::Stack) { delete y->obj; root.children.remove(at); all.remove(all.indexOf(y)); delete y; c.label("child removed"); } }
			}
			c.desc(nodeText(&root) + "\n");
		}
		ReqOpts ro; ro.absoluteUris = false; ro.keepAliveHeaders = false; ro.oddVersions = false; ro.expect = false; ro.maxBody = 100; ro.longFields = false; ro.nonAscii = false;
		Req q = genRequest(g, ro); q.version = "HTTP/1.1"; if (q.method == "HEAD") q.method = "GET";
		QVector<int> asked; Answer a; bool accepted = walk(&root, asked, a, q); if (!accepted) { a.status = 501; a.body = "declined"; c.label("nobody accepts"); } else c.label("accepted");
		if (asked.size() > 1) c.nontrivial();
		c.desc(" " + q.method + " " + show(q.uri, 60) + " -> " + num(a.status) + "\n");
		int before = log.size(); dev.feed(q.wire()); settle(1);
		if (a.later)
		{
			c.label("accepted and answered later"); c.eqn(dev.all().size(), pos, "request " + num(i) + ": bytes written although the handler that accepted has not answered yet"); if (c.failed()) return;
			conn.writeResponse(a.status, HttpHeaderCollection(), a.body); settle(1);
		}
		Resp r; QByteArray err; if (readResponse(dev.all(), pos, false, false, r, err) != Ok) { c.fail("response", "request " + num(i) + ": " + err); return; }
		QByteArray where = "request " + num(i) + ": ";
		c.eqn(sink.results.size(), i + 1, where + "requests offered"); c.eqn(sink.results.last(), accepted ? 1 : 0, where + "handleRequest of the stack");
		QVector<int> got; for (int j = before; j < log.size(); ++j) got << log.at(j).route;
		if (got != asked) { QByteArray x, y; for (int v : got) x += num(v) + " "; for (int v : asked) y += num(v) + " "; c.fail("order", where + "handlers called: " + x + ", expected " + y); }
		c.eqn(r.status, a.status, where + "status");
		if (a.status == 404 && a.body == q.path) c.check(r.body.contains("'" + q.path + "'"), "404", where + "the body \"" + show(r.body) + "\" does not name the path " + q.path);
		else c.eq(r.body, a.body, where + "content");
		c.check(!sink.touched, "declined", where + "something was written for a declined request");
	}
}

//
// C13
//

struct LogConn { HttpConnection* conn; QIODevice* dev; PipeDevice* pipe; QTcpSocket* peer; Req q; Plan p; bool pending, seen, done, closed; QByteArray address; int session; long long readyAt; int place; };

class LogSink : public QObject {
	Q_OBJECT
public:
	HttpHandlerLog* log; std::function<void(HttpConnection*)> ready, completed, closed;
	bool accepted; LogSink() : log(0), accepted(false) {}
public slots:
	void isReady(Pillow::HttpConnection* c) { if (log->handleRequest(c)) accepted = true; ready(c); }
	void isCompleted(Pillow::HttpConnection* c) { completed(c); }
	void isClosed(Pillow::HttpConnection* c) { closed(c); }
};

QTcpServer* tcpListener() { static QTcpServer* s = 0; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); s = new QTcpServer; s->listen(QHostAddress::LocalHost, 0); } return s; }

struct Line { QByteArray prefix, address, request; int status; long long length; bool plain; long long took; };

void c13(Gen& g, Ctx& c)
{
	QBuffer a, b; a.open(QIODevice::ReadWrite); b.open(QIODevice::ReadWrite); QBuffer* device = &a;
	HttpHandlerLog::Mode mode = g.chance(1, 2) ? HttpHandlerLog::TraceRequests : HttpHandlerLog::LogCompletedRequests;
	HttpHandlerLog* log = mode == HttpHandlerLog::TraceRequests || g.chance(1, 2) ? new HttpHandlerLog(mode, device) : new HttpHandlerLog(device);
	LogSink sink; sink.log = log;
	QVector<LogConn*> conns; QVector<Line> wantA, wantB; int requests = 0;
	QDateTime start = QDateTime::currentDateTime(); const long long realStart = realMs();
	auto find = [&](HttpConnection* h) -> LogConn* { for (LogConn* x : conns) if (x->conn == h) return x; return 0; };
	auto expect = [&](const char* prefix, LogConn* x, bool plain, int status, long long length) { Line l; l.prefix = prefix; l.address = x->address; QByteArray u = x->q.uri; l.request = x->q.method + " " + u + " " + x->q.version; l.status = status; l.length = length; l.plain = plain; l.took = passed - x->readyAt; (device == &a ? wantA : wantB) << l; };
	sink.ready = [&](HttpConnection* h) {
		LogConn* x = find(h); x->seen = true; x->readyAt = passed; x->pending = true; x->done = false;
		if (mode == HttpHandlerLog::TraceRequests) expect("[BEGIN] ", x, true, 0, 0);
	};
	sink.completed = [&](HttpConnection* h) { LogConn* x = find(h); x->pending = false; x->done = true; Model m = modelOf(x->q, x->p); expect(mode == HttpHandlerLog::TraceRequests ? "[ END ] " : "", x, false, m.status, m.length); ++requests; };
	sink.closed = [&](HttpConnection* h) {
		LogConn* x = find(h); x->closed = true; x->pending = false;
		if (mode == HttpHandlerLog::TraceRequests && x->seen) { Model m = modelOf(x->q, x->p); expect("[CLOSE] ", x, false, x->done ? m.status : -1, x->done ? m.length : -2); c.label("closed after a request"); }
	};
	auto open = [&](LogConn* x) {
		x->pending = x->seen = x->done = x->closed = false; x->pipe = 0; x->peer = 0; x->address = "";
		if (g.chance(1, 12))
		{
			// A real socket has an address.
			x->peer = new QTcpSocket; x->peer->connectToHost(QHostAddress::LocalHost, tcpListener()->serverPort());
			if (tcpListener()->waitForNewConnection(5000)) { x->dev = tcpListener()->nextPendingConnection(); x->dev->setParent(0); x->peer->waitForConnected(5000); x->address = "127.0.0.1"; c.label("with an address"); }
			else { delete x->peer; x->peer = 0; }
		}
		if (!x->peer) { x->pipe = new PipeDevice; x->dev = x->pipe; }
		x->conn->initialize(x->dev, x->dev);
	};
	auto feed = [&](LogConn* x, const QByteArray& d) { if (x->pipe) x->pipe->feed(d); else { x->peer->write(d); x->peer->flush(); bool before = x->pending; waitUntil([&] { return x->pending != before || x->closed; }, 5000); } };
	// Connection objects live in a few places of memory, so that a new one takes the address of one that is gone.
	alignas(16) static char places[5][sizeof(HttpConnection)]; bool taken[5] = {false, false, false, false, false};
	auto create = [&]() -> LogConn* {
		LogConn* x = new LogConn; x->session = 0; x->readyAt = 0; x->place = 0; while (taken[x->place]) ++x->place; taken[x->place] = true; x->conn = new (places[x->place]) HttpConnection; conns << x;
		QObject::connect(x->conn, SIGNAL(requestReady(Pillow::HttpConnection*)), &sink, SLOT(isReady(Pillow::HttpConnection*)));
		QObject::connect(x->conn, SIGNAL(requestCompleted(Pillow::HttpConnection*)), &sink, SLOT(isCompleted(Pillow::HttpConnection*)));
		QObject::connect(x->conn, SIGNAL(closed(Pillow::HttpConnection*)), &sink, SLOT(isClosed(Pillow::HttpConnection*)));
		open(x); return x;
	};
	auto destroy = [&](LogConn* x) { x->conn->~HttpConnection(); taken[x->place] = false; delete x->dev; delete x->peer; delete x; };
	int nc = 1 + int(g.size(4)); for (int i = 0; i < nc; ++i) create();
	int n = 1 + int(g.size(20));
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		if (g.chance(1, 3)) { long long ms = g.chance(1, 8) ? 86400000LL * g.u(1, 60) : g.chance(1, 2) ? g.u(1, 5000) : g.u(1, 7200000); passed += ms; c.label("time passes"); c.desc(" " + num(ms) + " ms pass\n"); }
		LogConn* x = conns.at(int(g.u(0, uint32_t(conns.size() - 1))));
		if (x->closed) { if (g.chance(1, 4)) { c.desc(" " + num(conns.indexOf(x)) + " is destroyed, another takes its place\n"); conns.remove(conns.indexOf(x)); destroy(x); create(); c.label("a new connection at its address"); } else if (g.chance(1, 2)) { QIODevice* old = x->dev; QTcpSocket* peer = x->peer; open(x); old->deleteLater(); if (peer) peer->deleteLater(); c.label("connection object used again"); c.desc(" " + num(conns.indexOf(x)) + " reconnects\n"); if (g.chance(1, 3)) { if (x->pipe) { x->pipe->feed("GET /part"); } } } continue; }
		switch (g.weighted({uint32_t(x->pending ? 0 : 10), uint32_t(x->pending ? 10 : 0), 1, 1, 1}))
		{
		case 0: // A request.
		{
			ReqOpts ro; ro.oddVersions = false; ro.expect = false; ro.maxBody = g.chance(1, 6) ? 80000 : 300; Req q = genRequest(g, ro);
			if (g.chance(1, 3)) { q.uri = q.path = "/" + g.pickB({"%201", "a%12b", "%25%31", "%07", "%34x%05%06", "\"quoted\"", "a%22b", "%99%98"}); q.query = QByteArray(); q.hasFragment = false; q.fragment = QByteArray(); if (q.uri.contains("%2") || q.uri.contains("%0")) c.label("URI with percent signs and digits"); }
			x->q = q; PlanOpts po; x->p = genCompletePlan(g, q, po); c.desc(" " + num(conns.indexOf(x)) + ": " + q.method + " " + show(q.uri, 60) + " " + q.version + ", " + num(q.body.size()) + " bytes\n");
			feed(x, q.wire());
			if (x->peer && !x->pending && !x->closed) { c.fail("harness", "request not announced over TCP"); }
			if (g.chance(2, 3) && x->pending) { x->p.run(x->conn); }
			break;
		}
		case 1: c.desc(" " + num(conns.indexOf(x)) + " answers\n"); x->p.run(x->conn); break;
		case 2: // Closed, by the peer or by the server.
			c.desc(" " + num(conns.indexOf(x)) + " closes\n");
			if (g.chance(1, 2) || !x->pipe) x->conn->close(); else x->pipe->peerClose();
			break;
		case 3: { // Settings.
			c.label("settings changed"); bool busy = false; for (LogConn* y : conns) if (y->pending) busy = true;
			if (g.chance(1, 2) && !busy) { mode = mode == HttpHandlerLog::TraceRequests ? HttpHandlerLog::LogCompletedRequests : HttpHandlerLog::TraceRequests; log->setMode(mode); c.desc(" mode changes\n"); }
			else { device = device == &a ? &b : &a; log->setDevice(device); c.desc(" device changes\n"); }
			break;
		}
		default: // The connection object goes away.
			if (g.chance(1, 2) && conns.size() > 1) { c.desc(" " + num(conns.indexOf(x)) + " is destroyed\n"); conns.remove(conns.indexOf(x)); destroy(x); c.label("connection destroyed"); if (g.chance(2, 3)) { create(); c.label("a new connection at its address"); c.desc(" a new one takes its place\n"); } }
			break;
		}
		settle(1);
	}
	settle(2);
	if (requests > 1) c.nontrivial();
	// The lines.
	const double slack = (realMs() - realStart) / 1000.0 + 0.003; QDateTime end = QDateTime::currentDateTime();
	for (int d = 0; d < 2 && !c.failed(); ++d)
	{
		QByteArray data = d == 0 ? a.data() : b.data(); const QVector<Line>& want = d == 0 ? wantA : wantB;
		QList<QByteArray> lines = data.split('\n'); QByteArray last = lines.takeLast(); c.eq(last, "", "text after the last line");
		c.eqn(lines.size(), want.size(), "lines written");
		for (int i = 0; i < lines.size() && i < want.size() && !c.failed(); ++i)
		{
			QByteArray l = lines.at(i); const Line& w = want.at(i); QByteArray where = "line " + num(i) + " \"" + show(l, 400) + "\": ";
			QByteArray req = QString::fromUtf8(w.request.constData(), w.request.size()).toUtf8();
			QByteArray head = w.prefix + w.address + " - - [";
			// A socket forgets its address when it closes.
			if (w.prefix == "[CLOSE] " && !l.startsWith(head)) head = w.prefix + " - - [";
			if (!c.check(l.startsWith(head), "line", where + "does not begin with \"" + head + "\"")) break;
			l.remove(0, head.size()); QByteArray stamp = l.left(19); l.remove(0, 19);
			QDateTime t = QDateTime::fromString(QString::fromLatin1(stamp), "dd/MMM/yyyy hh:mm:ss"); int len = 0;
			if (!t.isValid()) { len = l.indexOf(']'); if (len >= 0) { stamp += l.left(len); l.remove(0, len); t = QDateTime::fromString(QString::fromLatin1(stamp), "dd/MMM/yyyy hh:mm:ss"); } } else if (!l.startsWith("]")) { len = l.indexOf(']'); stamp += l.left(len); l.remove(0, len); t = QDateTime::fromString(QString::fromLatin1(stamp), "dd/MMM/yyyy hh:mm:ss"); }
			c.check(t.isValid() && t >= start.addSecs(-1) && t <= end.addSecs(1), "time", where + "the time " + stamp + " is not that of the request");
			QByteArray mid = "] \"" + req + "\" "; 
			if (!c.check(l.startsWith(mid), "request", where + "expected the request \"" + show(req, 300) + "\"")) break;
			l.remove(0, mid.size());
			if (w.plain) { c.eq(l, "- - -", where + "end"); continue; }
			QList<QByteArray> f = l.split(' ');
			if (!c.eqn(f.size(), 3, where + "fields after the request")) break;
			if (w.status >= 0) c.eq(f.at(0), num(w.status), where + "status"); else { bool ok; int st = f.at(0).toInt(&ok); c.check(ok && st <= 0, "status", where + "a status although no response was sent"); }
			if (w.length >= -1) c.eq(f.at(1), num(w.length), where + "length");
			bool ok; double e = f.at(2).toDouble(&ok); int dot = f.at(2).indexOf('.');
			const double took = w.took / 1000.0;
			c.check(ok && e >= 0 && e >= took - 0.003 && e <= took + slack && dot >= 1 && f.at(2).size() - dot == 4, "elapsed", where + "bad elapsed time, the request took about " + QByteArray::number(took, 'f', 3) + " s");
		}
	}
	c.check(!sink.accepted, "accepted", "the log handler accepted a request");
	bool first = g.chance(1, 2); if (first) delete log;
	for (LogConn* x : conns) destroy(x);
	if (!first) delete log;
	settle(1);
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C11", "Route tables of up to a dozen routes (literal text, ':name', '*name' in any order and mixture, equal patterns with different methods; every kind of target), requests made from the patterns, near misses and unrelated ones, percent-encoded at random, with colliding query parameters and '_method', options and table changing in between, on one kept connection. Oracle: an independent matcher; captures must spell the path. Non-trivial: a route with parameters was taken.",
			60000, 1500000, c11, 40, 7, {"In patterns, characters special to QRegExp other than '.' are not used; '.' stands for any character.", "When several decompositions of the path fit a pattern, any of them is accepted.", "What a request for a destroyed target is answered is not judged, only that no other target is called."}, {"routed", "with parameters", "several parameters", "several patterns match", "405", "404", "method mismatch", "method parameter used", "invokable method", "route without target", "target destroyed"}},
		{"C12", "Random trees of stacks, recording, fixed, 404, function, log handlers and other objects; requests in sequence with settings and children added, moved and removed in between; handlers that answer at once or later. Oracle: a walk over the model tree. Non-trivial: two or more recording handlers were asked.",
			60000, 1500000, c12, 40, 7, {"Handlers are not added or removed while a request is being offered."}, {"accepted", "nobody accepts", "settings changed", "child added", "child removed", "child moved", "accepted and answered later"}},
		{"C13", "Several connections (in-memory and TCP), requests with bodies and odd URIs answered at once or later, closes, re-initialized and destroyed connections, mode and device changes; the clock is moved on by up to weeks in between. Oracle: the expected lines in order, with the time each request took. Non-trivial: two or more completed requests.",
			40000, 1000000, c13, 40, 7, {"Every request is offered to the log handler.", "Bytes that are not UTF-8 appear as replacement characters."}, {"time passes", "closed after a request", "with an address", "connection object used again", "URI with percent signs and digits", "settings changed", "connection destroyed", "a new connection at its address"}},
	};
	return pbt::main(argc, argv, checks);
}

#include "check_route.moc"
