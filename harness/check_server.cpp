// C21 servers with many clients over TCP, local sockets and TLS, C24 this library's client against its server.
#include "netsupport.h"
#include "reuse.h"
#include "plan.h"
#include "tlscert.h"
#include "HttpsServer.h"
#include "HttpClient.h"
#include <QtCore/QDir>
#include <QtCore/QMap>
#include <QtCore/QPointer>
#include <QtCore/QSet>
#include <QtCore/QTemporaryDir>
#include <QtNetwork/QLocalSocket>
#include <QtNetwork/QSslSocket>
#include <QtNetwork/QSslKey>
#include <QtNetwork/QSslCertificate>

using namespace Pillow;

namespace {

const QByteArray refusal("HTTP/1.0 400 Bad Request\r\nConnection: close\r\n\r\n");

struct Op {
	enum How { Now, Later, Drop, DropOthers } how; Req req; Plan plan; Model m; int client, life; bool selfFirst, inClosed; int announced; bool dropped;
	Op() : how(Now), client(0), life(0), selfFirst(false), inClosed(false), announced(0), dropped(false) {}
	bool keeps() const { return how != Drop && how != DropOthers && m.keep; }
};
struct Seg { QByteArray data; int need; };
struct Life {
	enum Kind { Plain, EarlyQuit, LateQuit, Garbage, Silent, NoTls } kind; QVector<int> ops; QVector<Seg> segs; int at; bool abrupt, slow; QByteArray junk;
	Life() : kind(Plain), at(0), abrupt(false), slow(false) {}
};
struct Client {
	QVector<Life> lives; int life, seg, got, pos; QIODevice* dev; bool connected, eof, failed; QByteArray in; int wrote; QHostAddress address; bool over;
	Client() : life(-1), seg(0), got(0), pos(0), dev(0), connected(false), eof(false), failed(false), wrote(0), over(false) {}
};
struct Pending { QPointer<HttpConnection> conn; int op, step; };

struct World : QObject {
	enum Transport { Tcp, Tcp6, Local, Tls } transport; QObject* server; QString localName; QHostAddress host; quint16 port; QVector<Op> ops; QVector<Client> clients; QVector<Pending> pending; QMap<HttpConnection*, int> active; QSet<HttpConnection*> known; Gen* g; Ctx* c; bool destroyed; int disturbed; HttpConnection* closeToo; std::function<void()> inClosed;
	World() : server(0), port(0), g(0), c(0), destroyed(false), disturbed(0), closeToo(0) {}
	~World() { for (Client& k : clients) { if (k.dev) QObject::disconnect(k.dev, 0, this, 0); delete k.dev; } delete server; if (!localName.isEmpty()) QFile::remove(localName); }

	bool start(QTemporaryDir& dir)
	{
		if (transport == Local)
		{
			localName = dir.path() + "/s"; const bool byName = g->chance(1, 2); HttpLocalServer* s = byName ? new HttpLocalServer(localName) : new HttpLocalServer; server = s; const bool listening = s->isListening(); if (!listening && !s->listen(localName)) return false;
			if (!c->eqn(listening ? 1 : 0, byName ? 1 : 0, "listening after construction")) return false;
			QObject::connect(s, &HttpLocalServer::requestReady, this, [this](HttpConnection* q) { ready(q); }); return true;
		}
		for (int i = 0; i < 20; ++i)
		{
			host = transport == Tcp6 ? QHostAddress(QHostAddress::LocalHostIPv6) : QHostAddress(quint32(0x7f000000u | (quint32(getpid() & 0xff) << 16) | g->u(1, 0xfffe))); HttpServer* s;
			quint16 at = 0; if (g->chance(1, 4)) { QTcpServer t; if (t.listen(host, 0)) at = t.serverPort(); } // A port that is free now.
			bool byAddress = g->chance(1, 2);
			if (transport == Tls)
			{
				static QSslCertificate cert(testCertificate); static QSslKey key(testKey, QSsl::Ec);
				if (byAddress) s = new HttpsServer(cert, key, host, at); else { HttpsServer* t = new HttpsServer; t->setCertificate(cert); t->setPrivateKey(key); t->listen(host, at); s = t; }
			}
			else if (byAddress) s = new HttpServer(host, at); else { s = new HttpServer; s->listen(host, at); }
			if (!s->isListening())
			{
				const bool could = byAddress && s->listen(host, at); delete s; if (!could) continue;
				c->fail("listening", "a server given an address does not listen, although it can"); return false;
			}
			if (at) { c->label("server on a given port"); c->eqn(s->serverPort(), at, "port of the server"); HttpServer second(host, at); c->check(!second.isListening(), "second", "a second server listens on the same port"); }
			c->eq(s->serverAddress().toString().toUtf8(), host.toString().toUtf8(), "address of the server");
			server = s; port = s->serverPort(); QObject::connect(s, &HttpServer::requestReady, this, [this](HttpConnection* q) { ready(q); }); return true;
		}
		return false;
	}

	//
	// The handler.
	//
	void ready(HttpConnection* q)
	{
		Seen s = Seen::of(q); bool ok; int i = headerValue(s.headers, "X-Id").toInt(&ok); if (!ok || i < 0 || i >= ops.size()) { c->fail("announcement", "a request nobody made was announced: " + show(s.uri) + " " + showHdrs(s.headers)); return; }
		Op& o = ops[i]; QByteArray where = "request " + num(i) + ": "; if (++o.announced > 1) { c->fail("announcement", where + "announced again"); return; }
		if (!compareSeen(*c, s, o.req, where)) return;
		if (active.contains(q)) { c->fail("announcement", where + "announced on the connection of request " + num(active.value(q)) + ", which was not answered yet"); return; }
		if (transport != Local && q->remoteAddress() != clients.at(o.client).address) { c->fail("address", where + "remote address " + q->remoteAddress().toString().toLatin1() + " is not the client's"); return; }
		if (!q->requestParamValue("verif-leak").isEmpty()) { c->fail("leak", where + "request parameter of an earlier request"); return; }
		q->setRequestParam("verif-leak", "1");
		if (!known.contains(q)) { known << q; QObject::connect(q, &HttpConnection::closed, this, [this](HttpConnection* x) { gone(x); }); QObject::connect(q, &QObject::destroyed, this, [this](QObject* x) { known.remove(static_cast<HttpConnection*>(x)); active.remove(static_cast<HttpConnection*>(x)); }); }
		active[q] = i;
		if (o.how == Op::Now) { QPointer<HttpConnection> p(q); run(q, i, 0); }
		else if (o.how == Op::Later) { Pending p; p.conn = q; p.op = i; p.step = 0; pending << p; }
		else
		{
			// Hang up, on others too, perhaps once told of the end of the first.
			auto others = [this, q]() { QList<HttpConnection*> l = active.keys(); for (HttpConnection* x : l) if (x != q && active.contains(x)) { ++disturbed; ops[active.value(x)].dropped = true; x->close(); } };
			if (o.how == Op::DropOthers && o.inClosed) { closeToo = q; inClosed = others; }
			if (o.how == Op::Drop || o.selfFirst || o.inClosed) q->close();
			if (o.how == Op::DropOthers && !o.inClosed) { others(); if (!o.selfFirst) q->close(); }
			if (q->state() != HttpConnection::Closed) c->fail("state", where + "closed by its handler, yet its state is " + num(q->state()));
		}
	}
	void gone(HttpConnection* x) { if (closeToo == x) { closeToo = 0; inClosed(); }	active.remove(x); for (int k = pending.size() - 1; k >= 0; --k) if (pending.at(k).conn == x) pending.remove(k); }
	// Performs all steps of an answer; those after the last that matters can already belong to another request.
	void run(HttpConnection* q, int i, int from)
	{
		const Plan p = ops.at(i).plan; for (int k = from; k < p.steps(); ++k) { if (k == p.steps() - 1) active.remove(q); p.step(q, k); }
	}
	void answerOne(int k)
	{
		Pending& p = pending[k]; if (!p.conn) { pending.remove(k); return; }
		HttpConnection* q = p.conn; int i = p.op, s = p.step++; const Plan plan = ops.at(i).plan; if (s == plan.steps() - 1) { pending.remove(k); active.remove(q); } plan.step(q, s);
	}

	//
	// The clients.
	//
	void begin(int k)
	{
		Client& q = clients[k]; const Life& l = q.lives.at(++q.life); q.seg = q.got = q.pos = q.wrote = 0; q.in.clear(); q.connected = q.eof = q.failed = false;
		if (transport == Local)
		{
			QLocalSocket* s = new QLocalSocket; q.dev = s; if (l.slow) s->setReadBufferSize(2000);
			QObject::connect(s, &QLocalSocket::connected, this, [this, k]() { clients[k].connected = true; }); QObject::connect(s, &QLocalSocket::disconnected, this, [this, k, s]() { end(k, s); }); QObject::connect(s, &QIODevice::readyRead, this, [this, k, s]() { if (!current(k, s)) return; if (!clients.at(k).lives.at(clients.at(k).life).slow) read(k); });
			QObject::connect(s, static_cast<void (QLocalSocket::*)(QLocalSocket::LocalSocketError)>(&QLocalSocket::error), this, [this, k, s](QLocalSocket::LocalSocketError) { if (current(k, s) && !clients.at(k).connected) clients[k].failed = true; });
			s->connectToServer(localName); if (s->state() == QLocalSocket::ConnectedState) q.connected = true; return;
		}
		bool tls = transport == Tls && l.kind != Life::NoTls; QTcpSocket* s = tls ? new QSslSocket : new QTcpSocket; q.dev = s; if (l.slow) s->setReadBufferSize(2000); if (transport != Tcp6) s->bind(q.address);
		QObject::connect(s, &QTcpSocket::disconnected, this, [this, k, s]() { end(k, s); }); QObject::connect(s, &QIODevice::readyRead, this, [this, k, s]() { if (!current(k, s)) return; if (!clients.at(k).lives.at(clients.at(k).life).slow) read(k); });
		QObject::connect(s, static_cast<void (QAbstractSocket::*)(QAbstractSocket::SocketError)>(&QAbstractSocket::error), this, [this, k, s](QAbstractSocket::SocketError) { if (current(k, s) && !clients.at(k).connected) clients[k].failed = true; });
		if (tls) { QSslSocket* t = static_cast<QSslSocket*>(s); t->setPeerVerifyMode(QSslSocket::VerifyNone); QObject::connect(t, &QSslSocket::encrypted, this, [this, k]() { clients[k].connected = true; }); t->connectToHostEncrypted(host.toString(), port); }
		else { QObject::connect(s, &QTcpSocket::connected, this, [this, k]() { clients[k].connected = true; }); s->connectToHost(host, port); }
	}
	bool current(int k, QIODevice* d) const { return clients.at(k).dev == d; }
	void end(int k, QIODevice* d) { if (!current(k, d)) return; read(k, true); clients[k].eof = true; }
	// Takes what has arrived and reads the responses in it.
	void read(int k, bool last = false)
	{
		Client& q = clients[k]; if (!q.dev) return; const Life& l = q.lives.at(q.life);
		do { QByteArray d = l.slow && !last ? q.dev->read(1500) : q.dev->readAll(); q.in += d; if (d.isEmpty()) break; } while (last);
		bool eof = last || q.eof;
		if (l.kind == Life::NoTls) return;
		while (q.got < l.ops.size())
		{
			Op& o = ops[l.ops.at(q.got)]; Resp r; QByteArray err; int p = q.pos; if (q.in.size() == p) return; QByteArray where = "client " + num(k) + ", request " + num(l.ops.at(q.got)) + ": ";
			if (!o.announced && o.how <= Op::Later) { c->fail("answer", where + "received bytes although its request was not announced: " + show(q.in.mid(p))); return; }
			if (o.how == Op::Drop || o.how == Op::DropOthers) { c->fail("answer", where + "received bytes on a connection that was to be closed: " + show(q.in.mid(p))); return; }
			// A cut off close-delimited response cannot be told from a complete one.
			bool partly = destroyed || o.dropped; ParseResult res = readResponse(q.in, p, o.req.method == "HEAD", eof && !partly, r, err);
			if (res == Bad) { c->fail("answer", where + err + " in " + show(q.in.mid(q.pos))); return; }
			if (res == Incomplete) return;
			if (!compareResponse(*c, r, o.req, o.plan, o.m, where)) return;
			q.pos = p; ++q.got;
		}
		if (q.in.size() == q.pos) return;
		if (l.kind == Life::Garbage && !refusal.startsWith(q.in.mid(q.pos))) c->fail("answer", "client " + num(k) + " received " + show(q.in.mid(q.pos)) + " for an invalid request");
		else if (l.kind != Life::Garbage) c->fail("answer", "client " + num(k) + " received more than its responses: " + show(q.in.mid(q.pos)));
	}
	void drop(int k, bool abrupt)
	{
		Client& q = clients[k]; QIODevice* d = q.dev; q.dev = 0; QObject::disconnect(d, 0, this, 0);
		if (QTcpSocket* s = qobject_cast<QTcpSocket*>(d)) { if (abrupt) s->abort(); else s->disconnectFromHost(); } else if (QLocalSocket* s = qobject_cast<QLocalSocket*>(d)) { if (abrupt) s->abort(); else s->disconnectFromServer(); }
		if (abrupt) d->deleteLater(); else { QTcpSocket* s = qobject_cast<QTcpSocket*>(d); QLocalSocket* t = qobject_cast<QLocalSocket*>(d); if ((s && s->state() == QAbstractSocket::UnconnectedState) || (t && t->state() == QLocalSocket::UnconnectedState)) d->deleteLater(); else { d->setParent(this); if (s) { if (s->readBufferSize()) s->setReadBufferSize(0); QObject::connect(s, &QTcpSocket::disconnected, s, &QObject::deleteLater); QObject::connect(s, &QIODevice::readyRead, s, [s]() { s->readAll(); }); } else { t->setReadBufferSize(0); QObject::connect(t, &QLocalSocket::disconnected, t, &QObject::deleteLater); QObject::connect(t, &QIODevice::readyRead, t, [t]() { t->readAll(); }); } } }
	}
	// Whether the current life of the client is over as it should; fails if it is over otherwise.
	bool complete(int k)
	{
		Client& q = clients[k]; const Life& l = q.lives.at(q.life);
		if (destroyed) return q.eof || q.failed;
		if (q.failed) { if (l.kind == Life::NoTls || l.kind == Life::Silent) return true; c->fail("connect", "client " + num(k) + " could not connect: " + q.dev->errorString().toUtf8()); return true; }
		if (!q.connected) return l.kind == Life::NoTls && q.eof;
		bool sent = q.seg == l.segs.size() && q.dev->bytesToWrite() == 0;
		// Hung up on by the handler of another request, within its own one.
		if (q.eof) for (int x = q.got; x < l.ops.size(); ++x) if (ops.at(l.ops.at(x)).dropped) return true;
		switch (l.kind)
		{
		case Life::Silent: return true;
		case Life::EarlyQuit: return sent || q.eof;
		case Life::LateQuit: return q.in.size() >= l.at || (sent && q.got == l.ops.size()) || q.eof;
		case Life::NoTls: return q.eof || l.junk.isEmpty() || (q.wrote && q.dev->bytesToWrite() == 0 && !l.junk.startsWith("GET ")); // What is not HTTP may look like the start of a long TLS record.
		case Life::Garbage: if (q.got < l.ops.size()) { if (q.eof) c->fail("answer", "client " + num(k) + " was disconnected before its request " + num(l.ops.at(q.got)) + " was answered; got " + show(q.in.mid(q.pos))); return q.eof; } if (q.eof && q.in.mid(q.pos) != refusal) c->fail("answer", "client " + num(k) + " was not told that its request is invalid, got " + show(q.in.mid(q.pos))); return q.eof;
		default:
			if (l.ops.isEmpty()) return true;
			const Op& o = ops.at(l.ops.last()); bool willDrop = o.how == Op::Drop || o.how == Op::DropOthers; int want = l.ops.size() - (willDrop ? 1 : 0);
			if (q.eof && q.got < want) { c->fail("answer", "client " + num(k) + " was disconnected before its request " + num(l.ops.at(q.got)) + " was answered; got " + show(q.in.mid(q.pos))); return true; }
			if (willDrop) { if (q.eof && !o.announced) c->fail("answer", "client " + num(k) + " was disconnected without its request " + num(l.ops.last()) + " being announced"); return q.eof; }
			return q.got == want && (o.m.keep || q.eof);
		}
	}
	void advance(int k)
	{
		Client& q = clients[k]; if (q.over) return;
		if (!q.dev) { if (q.life + 1 < q.lives.size() && !destroyed) begin(k); else q.over = true; return; }
		read(k); if (c->failed()) return;
		const Life& l = q.lives.at(q.life);
		if (q.connected && !q.eof && q.seg < l.segs.size() && q.got >= l.segs.at(q.seg).need) { const QByteArray& d = l.segs.at(q.seg++).data; q.dev->write(d); if (QTcpSocket* s = qobject_cast<QTcpSocket*>(q.dev)) s->flush(); else static_cast<QLocalSocket*>(q.dev)->flush(); }
		else if (q.connected && !q.eof && q.seg == l.segs.size() && (l.kind == Life::Garbage || l.kind == Life::NoTls) && !l.junk.isEmpty() && !q.wrote && q.got == l.ops.size()) { q.wrote = 1; q.dev->write(l.junk); }
		if (complete(k)) drop(k, l.abrupt);
	}
	bool allOver() const { for (const Client& q : clients) if (!q.over) return false; return true; }
	QByteArray stuck() const { QByteArray t; for (int k = 0; k < clients.size(); ++k) { const Client& q = clients.at(k); if (q.over || q.life < 0) continue; const Life& l = q.lives.at(q.life); t += "client " + num(k) + " (life " + num(q.life) + ", kind " + num(l.kind) + ") " + (q.connected ? "" : "not connected ") + (q.eof ? "disconnected " : "") + "sent " + num(q.seg) + " of " + num(l.segs.size()) + " pieces, got " + num(q.got) + " of " + num(l.ops.size()) + " responses, " + num(q.in.size() - q.pos) + " more bytes" + (q.got < l.ops.size() ? QByteArray(", request ") + num(l.ops.at(q.got)) + (ops.at(l.ops.at(q.got)).announced ? " announced" : " not announced") : QByteArray()) + "; "; if (t.size() > 1500) break; } return t; }
};

void addRequest(Gen& g, World& w, Life& l, int k, bool last, bool bigOk)
{
	Op o; o.client = k; ReqOpts ro; ro.expect = false; ro.maxBody = 20000; ro.nonAscii = true; o.req = genRequest(g, ro); int i = w.ops.size();
	int at = int(g.u(0, uint32_t(o.req.headers.size()))); o.req.headers.insert(at, Hdr("X-Id", num(i))); o.req.pads.insert(at, " ");
	for (int h = 0; h < o.req.headers.size(); ++h) if (h != at && ieq(o.req.headers.at(h).first, "x-id")) o.req.headers[h].first = "Y-Id";
	PlanOpts po; po.keepable = !last; if (bigOk && g.chance(1, 12)) { po.maxPiece = g.chance(1, 4) ? 3000000 : 200000; }
	o.plan = genCompletePlan(g, o.req, po); o.m = modelOf(o.req, o.plan); o.how = last && g.chance(1, 12) ? (g.chance(1, 2) ? Op::Drop : Op::DropOthers) : g.chance(1, 2) ? Op::Now : Op::Later; o.selfFirst = g.chance(1, 2); o.inClosed = g.chance(1, 3); o.life = w.clients.at(k).lives.size();
	w.ops << o; l.ops << i;
}

Life genLife(Gen& g, World& w, int k, bool small)
{
	Life l; l.kind = Life::Kind(g.weighted({12, 2, 2, 2, 1, uint32_t(w.transport == World::Tls ? 2 : 0)})); l.abrupt = g.chance(1, 3);
	if (l.kind == Life::NoTls) { if (g.chance(2, 3)) l.junk = g.chance(1, 2) ? QByteArray("GET / HTTP/1.1\r\n\r\n") : g.bytes(g.u(1, 300)); if (l.junk.size() < 20 || l.junk.startsWith("\x16")) l.junk.clear(); return l; }
	if (l.kind == Life::Silent) return l;
	l.slow = g.chance(1, 6); int n = small ? 1 : int(g.u(1, 4));
	for (int j = 0; j < n; ++j) { addRequest(g, w, l, k, j == n - 1 && l.kind != Life::Garbage, !small); if (!w.ops.at(l.ops.last()).keeps()) break; }
	// The stream of bytes.
	int need = 0; int total = 0;
	for (int j = 0; j < l.ops.size(); ++j)
	{
		if (!(j && g.chance(1, 3))) need = j;
		// Closing a connection throws away what it has not sent yet.
		const Op& o = w.ops.at(l.ops.at(j)); if (o.how == Op::Drop || o.how == Op::DropOthers) for (int x = need; x < j; ++x) if (w.ops.at(l.ops.at(x)).m.body.size() > 20000) need = j;
		QByteArray wire = w.ops.at(l.ops.at(j)).req.wire(); QVector<QByteArray> v = g.cut(wire, small ? 3 : 8); if (v.size() > 30) v = QVector<QByteArray>() << wire; total += wire.size();
		for (int x = 0; x < v.size(); ++x) { if (x == 0 && !l.segs.isEmpty() && l.segs.last().need == need && g.chance(1, 2)) l.segs.last().data += v.at(x); else { Seg s; s.data = v.at(x); s.need = need; l.segs << s; } }
	}
	if (!w.ops.at(l.ops.last()).keeps() && l.kind == Life::Garbage) l.kind = Life::Plain; if (l.kind == Life::Garbage) l.junk = g.pickB({"\x01\x02\r\n\r\n", "get / HTTP/1.1\r\n\r\n", "GET / HTTX\r\n\r\n", "GET http:/ HTTP/1.1\nx\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: -5\r\n\r\n"});
	if (l.kind == Life::EarlyQuit) { int at = int(g.u(0, uint32_t(total))), sum = 0; for (int x = 0; x < l.segs.size(); ++x) { if (sum + l.segs.at(x).data.size() >= at) { l.segs[x].data.truncate(at - sum); l.segs.resize(x + 1); break; } sum += l.segs.at(x).data.size(); } }
	if (l.kind == Life::LateQuit) l.at = int(g.chance(1, 2) ? g.u(1, 300) : g.u(1, 20000));
	return l;
}

// Clients that come and go, many times: what serves them must not pile up.
void churn(Gen& g, Ctx& c, World& w)
{
	c.label("clients come and go"); bool crowds = g.chance(1, 2); int batch = crowds ? 35 : 1, rounds = crowds ? 10 : 120;
	auto count = [&]() { return w.server->findChildren<HttpConnection*>().size(); }; auto sockets = [&]() { return w.transport == World::Local ? w.server->findChildren<QLocalSocket*>().size() : w.server->findChildren<QTcpSocket*>(QString(), Qt::FindDirectChildrenOnly).size(); };
	int before = count(); c.desc("(" + num(rounds) + " times " + num(batch) + " clients that come and go)");
	for (int r = 0; r < rounds; ++r)
	{
		QVector<QIODevice*> v; bool failed = false;
		for (int i = 0; i < batch; ++i)
		{
			if (w.transport == World::Local) { QLocalSocket* s = new QLocalSocket; s->connectToServer(w.localName); v << s; }
			else { QTcpSocket* s = new QTcpSocket; if (w.transport != World::Tcp6) s->bind(QHostAddress(quint32((w.host.toIPv4Address() & 0xffff0000u) | (g.u(1, 0xfffe))))); s->connectToHost(w.host, w.port); v << s; }
			if (i % 15 == 14) settle(1);
		}
		auto connected = [&](QIODevice* d) { QTcpSocket* s = qobject_cast<QTcpSocket*>(d); return s ? s->state() == QAbstractSocket::ConnectedState : static_cast<QLocalSocket*>(d)->state() == QLocalSocket::ConnectedState; };
		if (!waitUntil([&]() { int n = 0; for (QIODevice* d : v) n += connected(d); return n == batch && sockets() == batch; }, 20000)) failed = true;
		qDeleteAll(v);
		if (failed) { c.label("churn not possible"); return; }
		if (!waitUntil([&]() { return sockets() == 0; }, 20000)) { c.fail("resources", num(sockets()) + " sockets remain although all clients are gone"); return; }
	}
	settle(2);
	if (count() > before + 50) c.fail("resources", "the server went from " + num(before) + " to " + num(count()) + " connection objects for " + num(batch) + " clients at a time");
}

void c21(Gen& g, Ctx& c)
{
	reuse::on = g.chance(1, 2); if (reuse::on) c.label("addresses of deleted objects reused at once");
	QTemporaryDir dir; World w; w.g = &g; w.c = &c; w.transport = World::Transport(g.weighted({4, 1, 3, 3})); static const char* names[] = {"TCP", "TCP over IPv6", "local socket", "TLS"}; c.label(names[w.transport]); c.desc(QByteArray(names[w.transport]) + ": ");
	if (!w.start(dir)) { c.label("no socket"); return; }
	int n; bool many = g.chance(1, 12); n = many ? int(g.u(24, 60)) : int(g.chance(1, 4) ? g.u(5, 12) : g.u(1, 4)); if (many) { c.label("more clients than pooled connections"); if (w.transport == World::Tls) n = qMin(n, 32); }
	bool boundary = many && w.transport != World::Tls && g.chance(1, 2); int atRest = boundary ? int(g.chance(2, 3) ? 24 : g.u(18, 30)) : 0; if (boundary) n = atRest + int(g.u(2, 9));
	for (int k = 0; k < n; ++k)
	{
		w.clients << Client(); w.clients[k].address = w.transport == World::Tcp6 ? w.host : QHostAddress(quint32((w.host.toIPv4Address() & 0xffff0000u) | (g.u(1, 0xfffe)))); int lives = int(many ? g.u(1, 2) : g.u(1, 4));
		for (int j = 0; j < lives; ++j)
		{
			Life l; if (boundary) { addRequest(g, w, l, k, true, false); Op& o = w.ops[k]; o.how = k < n - 1 ? Op::Later : Op::DropOthers; o.selfFirst = true; o.inClosed = k % 2; Seg sg; sg.data = o.req.wire(); sg.need = 0; l.segs << sg; l.abrupt = g.chance(1, 2); lives = 1; } else l = genLife(g, w, k, many);
			w.clients[k].lives << l; static const char* kinds[] = {"plain", "quits within requests", "quits within responses", "sends garbage", "silent", "without TLS"}; if (l.kind) c.label(kinds[l.kind]); if (l.slow) c.label("slow reader");
			c.desc(num(k) + "." + num(j) + " " + kinds[l.kind] + (l.abrupt ? " abruptly" : "") + (l.slow ? " slow" : "") + (l.kind == Life::LateQuit ? " at " + num(l.at) : QByteArray()) + " in " + num(l.segs.size()) + " pieces:"); for (int i : l.ops) { const Op& o = w.ops.at(i); static const char* hows[] = {"", " later", " dropped", " dropped with others"}; c.desc(" [" + num(i) + "] " + o.req.method + " " + o.req.version + " " + show(o.req.uri, 40) + (o.req.body.isEmpty() ? QByteArray() : " +" + num(o.req.body.size())) + " -> " + (o.how < Op::Drop ? o.plan.text() : QByteArray()) + hows[o.how]); if (o.m.body.size() > 300000) { c.label("large response"); if (!o.m.keep) c.label("large response that closes"); } if (o.how == Op::DropOthers) c.label("handler closes other connections"); } c.desc("; ");
			if (l.ops.size() > 1 && l.segs.size() > 1) c.nontrivial();
		}
	}
	if (n > 1) c.nontrivial();
	// Handlers that close several connections when many are back in the pool.
	if (boundary)
	{
		c.label("many connections at rest, then several closed at once");
		auto announced = [&]() { for (int k = 0; k + 1 < n; ++k) if (!w.ops.at(k).announced) return false; return true; };
		if (!waitUntil([&]() { for (int k = 0; k + 1 < n; ++k) { w.advance(k); if (k % 15 == 14) settle(1); } return c.failed() || announced(); }, 20000)) { c.fail("left waiting", w.stuck()); return; }
		auto left = [&]() { for (int k = 0; k < atRest; ++k) if (!w.clients.at(k).over) return false; return true; };
		if (!waitUntil([&]() { for (int k = 0; k < atRest; ++k) { for (int x = w.pending.size() - 1; x >= 0; --x) if (w.pending.at(x).op == k) w.answerOne(x); w.advance(k); } return c.failed() || left(); }, 20000)) { c.fail("left waiting", w.stuck()); return; }
		settle(2); if (c.failed()) return;
	}
	// A phase in random order, perhaps until the server goes.
	int steps = int(g.u(0, uint32_t(many ? 400 : 60 * n))), destroyAt = g.chance(1, 6) ? int(g.u(0, uint32_t(steps))) : -1; int opened = 0;
	auto destroy = [&]() { c.label("server destroyed"); c.desc("(server destroyed)"); if (!w.pending.isEmpty()) c.label("server destroyed with requests pending"); delete w.server; w.server = 0; w.destroyed = true; w.pending.clear(); w.active.clear(); };
	for (int s = 0; s < steps && !c.failed() && !w.allOver(); ++s)
	{
		if (s == destroyAt) { destroy(); break; }
		switch (g.weighted({6, 2, 3}))
		{
		case 0: w.advance(int(g.u(0, uint32_t(n - 1)))); if (++opened % 15 == 0) settle(1); break;
		case 1: settle(1); break;
		default: if (!w.pending.isEmpty()) w.answerOne(int(g.u(0, uint32_t(w.pending.size() - 1)))); else settle(1);
		}
	}
	if (c.failed()) return;
	if (destroyAt >= steps && !w.destroyed) destroy();
	// Everything else.
	bool ok = waitUntil([&]() { for (int k = 0; k < n && !c.failed(); ++k) { w.advance(k); if (k % 15 == 14) settle(1); } if (!w.pending.isEmpty()) w.answerOne(int(g.u(0, uint32_t(w.pending.size() - 1)))); return c.failed() || w.allOver(); }, 20000);
	if (c.failed()) return;
	if (!ok) { c.fail("left waiting", w.stuck()); return; }
	if (w.disturbed) c.label("connection closed by another's handler");
	if (w.destroyed) { settle(2); return; }
	for (int i = 0; i < w.ops.size(); ++i) { const Op& o = w.ops.at(i); const Life& l = w.clients.at(o.client).lives.at(o.life); if ((l.kind == Life::Plain || l.kind == Life::Garbage) && !o.announced && !w.disturbed) { c.fail("announcement", "request " + num(i) + " was never announced"); return; } }
	// What belonged to the departed is released.
	auto sockets = [&]() { return w.server->findChildren<QTcpSocket*>().size() + w.server->findChildren<QLocalSocket*>().size(); };
	if (!waitUntil([&]() { if (!w.pending.isEmpty()) w.answerOne(0); return sockets() == 0; }, 20000)) { c.fail("resources", num(sockets()) + " sockets remain although all clients are gone"); return; }
	if (g.chance(1, 30)) churn(g, c, w);
}

//
// C24
//
struct Exchange {
	Req req; Plan plan; Model m; int client, server, handled, finished; bool deferred, abort, generic, consume, fromFinished; int buffer, keepAlive, abortAfter; QUrl url; QByteArray data, taken; int connection;
	Exchange() : client(0), server(0), handled(0), finished(0), deferred(false), abort(false), generic(false), consume(false), fromFinished(false), buffer(0), keepAlive(-1), abortAfter(0), connection(-1) {}
};
struct Ends : QObject {
	Ctx* c; QVector<Exchange> x; QVector<QVector<int>> queues; QVector<int> at; QVector<HttpClient*> clients; QVector<HttpServer*> servers; QVector<Pending> pending; QSet<HttpConnection*> known;
	~Ends() { for (HttpClient* q : clients) { QObject::disconnect(q, 0, this, 0); } qDeleteAll(clients); qDeleteAll(servers); }
	void ready(int server, HttpConnection* q)
	{
		Seen s = Seen::of(q); int i = headerValue(s.headers, "X-Id").toInt(); if (i < 0 || i >= x.size()) { c->fail("request", "no such exchange: " + show(s.uri)); return; }
		Exchange& e = x[i]; QByteArray where = "exchange " + num(i) + ": "; if (e.server != server) { c->fail("request", where + "arrived at the other server"); return; } if (++e.handled > 1) { c->fail("request", where + "handled twice"); return; } if (e.finished && !e.abort) { c->fail("request", where + "handled after it finished"); return; }
		// The client's own headers.
		int hosts = 0, lengths = 0; for (int k = s.headers.size() - 1; k >= 0; --k) { if (ieq(s.headers.at(k).first, "host")) { ++hosts; c->eq(s.headers.at(k).second, e.url.authority().toLatin1(), where + "Host"); s.headers.remove(k); } else if (ieq(s.headers.at(k).first, "content-length")) { ++lengths; c->eq(s.headers.at(k).second, num(e.req.body.size()), where + "Content-Length"); s.headers.remove(k); } }
		c->eqn(hosts, 1, where + "Host headers"); c->eqn(lengths, e.req.body.isEmpty() ? 0 : 1, where + "Content-Length headers");
		if (!compareSeen(*c, s, e.req, where)) return;
		if (!e.deferred) { const Plan p = e.plan; p.run(q); return; }
		if (!known.contains(q)) { known << q; QObject::connect(q, &HttpConnection::closed, this, [this](HttpConnection* g) { for (int k = pending.size() - 1; k >= 0; --k) if (pending.at(k).conn == g) pending.remove(k); }); QObject::connect(q, &QObject::destroyed, this, [this](QObject* g) { known.remove(static_cast<HttpConnection*>(g)); }); } // Connections are reused once closed.
		Pending p; p.conn = q; p.op = i; p.step = 0; pending << p;
	}
	void answerOne(int k) { Pending& p = pending[k]; if (!p.conn) { pending.remove(k); return; } HttpConnection* q = p.conn; int s = p.step++; const Plan plan = x.at(p.op).plan; if (s == plan.steps() - 1) pending.remove(k); plan.step(q, s); }
	Exchange* current(int k) { return at.at(k) < 0 ? 0 : &x[queues.at(k).at(at.at(k))]; }
	bool next(int k)
	{
		if (at.at(k) + 1 >= queues.at(k).size()) return false;
		++at[k]; Exchange& e = *current(k); HttpClient* q = clients.at(k); q->setReadBufferSize(e.buffer); q->setKeepAliveTimeout(e.keepAlive); const QByteArray m = e.req.method; HttpHeaderCollection h = toColl(e.req.headers);
		if (e.generic) { if (e.consume) q->request(m, e.url, h, e.data); else { HttpClientRequest r; r.method = m; r.url = e.url; r.headers = h; r.data = e.data; q->request(r); } }
		else if (m == "GET") q->get(e.url, h); else if (m == "HEAD") q->head(e.url, h); else if (m == "POST") q->post(e.url, h, e.data); else if (m == "PUT") q->put(e.url, h, e.data); else q->deleteResource(e.url, h);
		return true;
	}
	void content(int k) { Exchange* e = current(k); if (e && e->consume) e->taken += clients.at(k)->consumeContent(); }
	void finished(int k)
	{
		Exchange* e = current(k); HttpClient* q = clients.at(k); if (!e) { c->fail("response", "client " + num(k) + " finished nothing"); return; }
		int i = queues.at(k).at(at.at(k)); QByteArray where = "exchange " + num(i) + ": "; if (++e->finished > 1) { c->fail("response", where + "finished twice"); return; }
		if (q->responsePending()) c->fail("response", where + "still pending when finished");
		if (e->abort && q->error() == HttpClient::AbortedError) {}
		else
		{
			if (q->error() != HttpClient::NoError) { c->fail("response", where + "client error " + num(q->error())); return; }
			if (e->handled != 1) { c->fail("response", where + "finished but handled " + num(e->handled) + " times"); return; }
			c->eqn(q->statusCode(), e->m.status, where + "status");
			Hdrs want, got, types, wantTypes; for (const Hdr& h : e->plan.headers) { if (!isSpecial(h.first)) want << h; else if (ieq(h.first, "content-type")) wantTypes << h; } for (const Hdr& h : toHdrs(q->headers())) { if (!isSpecial(h.first)) got << h; else if (ieq(h.first, "content-type")) types << h; }
			if (wantTypes.isEmpty() && e->m.length > 0) wantTypes << Hdr("Content-Type", "text/plain");
			if (want != got) c->fail("response headers", where + "response headers: got " + showHdrs(got) + ", the handler gave " + showHdrs(want)); if (types != wantTypes) c->fail("content type", where + "content type headers: got " + showHdrs(types) + ", expected " + showHdrs(wantTypes));
			c->eq(e->taken + q->content(), e->m.head ? QByteArray() : e->m.body, where + "content");
		}
		if (c->failed()) return;
		if (e->fromFinished) next(k);
	}
	bool idle(int k) { Exchange* e = current(k); return !e || e->finished; }
	bool allOver() { for (int k = 0; k < clients.size(); ++k) if (!idle(k) || at.at(k) + 1 < queues.at(k).size()) return false; return true; }
};

void c24(Gen& g, Ctx& c)
{
	reuse::on = g.chance(1, 3);
	Ends w; w.c = &c; int ns = g.chance(1, 4) ? 2 : 1, nc = g.chance(1, 3) ? int(g.u(2, 5)) : 1;
	for (int i = 0; i < ns; ++i)
	{
		HttpServer* s = 0; for (int t = 0; t < 20 && !s; ++t) { s = new HttpServer(QHostAddress(quint32(0x7f000000u | (quint32(getpid() & 0xff) << 16) | g.u(1, 0xfffe))), 0); if (!s->isListening()) { delete s; s = 0; } } if (!s) { c.label("no socket"); return; }
		w.servers << s; QObject::connect(s, &HttpServer::requestReady, &w, [&w, i](HttpConnection* q) { w.ready(i, q); });
	}
	for (int k = 0; k < nc; ++k)
	{
		HttpClient* q = new HttpClient; w.clients << q; w.at << -1; w.queues << QVector<int>();
		QObject::connect(q, &HttpClient::finished, &w, [&w, k]() { w.finished(k); }); QObject::connect(q, &HttpClient::contentReadyRead, &w, [&w, k]() { w.content(k); });
		int n = int(g.chance(1, 8) ? g.u(8, 25) : g.u(1, 6));
		for (int j = 0; j < n; ++j)
		{
			Exchange e; int id = w.x.size(); e.client = k; e.server = int(g.u(0, uint32_t(ns - 1))); Req& r = e.req; r.version = "HTTP/1.1"; r.method = g.chance(4, 5) ? g.pickB({"GET", "POST", "PUT", "DELETE", "HEAD"}) : g.pickB({"PATCH", "OPTIONS", "PROPFIND", "M-SEARCH", "X"});
			Target t; t.path = g.chance(1, 8) ? QByteArray() : "/" + urlText(g, g.chance(1, 20) ? 600 : 30, false); t.hasQuery = g.chance(2, 5); if (t.hasQuery) t.query = urlText(g, g.chance(1, 20) ? 600 : 30, true);
			e.url = QUrl::fromEncoded(t.url("http://" + w.servers.at(e.server)->serverAddress().toString().toLatin1() + ":" + num(w.servers.at(e.server)->serverPort()))); if (!e.url.isValid()) { c.label("invalid URL"); continue; }
			r.uri = t.wire(); r.path = t.path.isEmpty() ? QByteArray("/") : t.path; r.query = t.query; int nh = int(g.size(8)), total = 0;
			for (int i = 0; i < nh; ++i) { Hdr h(genHeaderName(g), genHeaderValue(g, g.chance(1, 30) ? 3000 : 40)); total += h.first.size() + h.second.size(); if (total > 20000) break; if (ieq(h.first, "host") || ieq(h.first, "content-length") || ieq(h.first, "transfer-encoding") || ieq(h.first, "connection") || ieq(h.first, "expect") || ieq(h.first, "x-id")) continue; r.headers << h; r.pads << " "; }
			auto add = [&](const QByteArray& a, const QByteArray& b) { int p = int(g.u(0, uint32_t(r.headers.size()))); r.headers.insert(p, Hdr(a, b)); r.pads.insert(p, " "); };
			add("X-Id", num(id)); if (g.chance(1, 6)) { add("Connection", g.pickB({"close", "keep-alive", "Close", "Keep-Alive"})); if (!clientKeeps(r)) c.label("request closes"); }
			e.generic = !(r.method == "GET" || r.method == "HEAD" || r.method == "POST" || r.method == "PUT" || r.method == "DELETE") || g.chance(1, 3);
			switch (g.weighted({4, 4, 2, 1, uint32_t(g.chance(1, 6) ? 1 : 0)})) { case 0: break; case 1: e.data = g.bytes(1 + g.size(300)); break; case 2: e.data = g.bytes(g.u(4080, 4110)); break; case 3: e.data = g.bytes(g.size(100000)); break; default: e.data = g.bytes(g.u(1000000, 4000000)); }
			bool drops = !e.generic && (r.method == "GET" || r.method == "HEAD" || r.method == "DELETE"); if (!drops) r.body = e.data;
			if (!r.body.isEmpty() && g.chance(1, 6)) { add(g.pickB({"Expect", "expect"}), g.pickB({"100-continue", "100-Continue"})); c.label("100-continue"); }
			PlanOpts o; if (g.chance(1, 15)) { o.maxPiece = g.chance(1, 3) ? 2000000 : 100000; } e.plan = genCompletePlan(g, r, o); for (Hdr& h : e.plan.headers) { if (ieq(h.first, "content-encoding")) h.first = "X-Encoding"; while (h.second.startsWith("\t") || h.second.startsWith(" ")) h.second.remove(0, 1); } /* Space before a value is not part of it. */ e.m = modelOf(r, e.plan);
			e.deferred = g.chance(1, 2); e.abort = g.chance(1, 20); e.abortAfter = int(g.u(0, 20)); e.consume = g.chance(1, 3); e.fromFinished = g.chance(1, 4); if (g.chance(1, 6)) { e.buffer = int(g.u(1, 20000)); e.consume = true; c.label("limited read buffer"); } if (g.chance(1, 8)) { e.keepAlive = g.chance(1, 2) ? 0 : int(g.u(1, 3)); c.label("keep-alive timeout"); }
			if (e.abort) c.label("aborted"); if (e.data.size() > 500000 && !drops) c.label("large request"); if (e.m.body.size() > 300000) c.label("large response"); if (r.method == "HEAD") c.label("HEAD"); if (e.m.chunked && !e.m.head) c.label("chunked"); if (!e.m.keep && e.m.length < 0 && !e.m.head) c.label("close-delimited"); if (e.m.length > 0 && !e.plan.whole) c.label("known length in pieces"); if (e.m.status == 204 || e.m.status == 304) c.label("no content");
			c.desc("[" + num(id) + "] client " + num(k) + " server " + num(e.server) + " " + r.method + " " + show(r.uri, 60) + " " + num(r.headers.size()) + " headers +" + num(r.body.size()) + (e.abort ? " aborted after " + num(e.abortAfter) : QByteArray()) + (e.buffer ? " buffer " + num(e.buffer) : QByteArray()) + (e.keepAlive >= 0 ? " keep-alive " + num(e.keepAlive) : QByteArray()) + (e.fromFinished ? " next from finished" : "") + " -> " + e.plan.text() + (e.deferred ? " later; " : "; "));
			w.queues[k] << id; w.x << e;
		}
		if (w.queues.at(k).size() > 1) c.nontrivial();
	}
	if (nc > 1) { c.label("several clients"); c.nontrivial(); } if (ns > 1) c.label("two servers");
	int rounds = 0;
	bool ok = waitUntil([&]() {
		bool random = ++rounds < 1500;
		for (int k = 0; k < nc && !c.failed(); ++k)
		{
			if (w.idle(k)) { if (!random || !g.chance(1, 4)) w.next(k); }
			else if (w.current(k)->consume && w.current(k)->buffer) w.content(k); // Frees the limited buffer.
			if (Exchange* e = w.current(k)) if (e->abort && !e->finished && e->abortAfter-- <= 0) { HttpClient* q = w.clients.at(k); if (!e->finished) q->abort(); if (!e->finished) c.fail("response", "abort() did not finish exchange " + num(w.queues.at(k).at(w.at.at(k)))); }
		}
		int n = random ? int(g.u(0, 3)) : 3; while (n-- && !w.pending.isEmpty() && !c.failed()) w.answerOne(random ? int(g.u(0, uint32_t(w.pending.size() - 1))) : 0);
		return c.failed() || w.allOver(); }, 20000);
	if (c.failed()) return;
	if (!ok) { QByteArray t; for (int k = 0; k < nc; ++k) if (Exchange* e = w.current(k)) if (!e->finished) t += "client " + num(k) + " waits for exchange " + num(w.queues.at(k).at(w.at.at(k))) + " (handled " + num(e->handled) + ", content so far " + num(e->taken.size() + w.clients.at(k)->content().size()) + "); "; c.fail("left waiting", t); return; }
	settle(2); if (c.failed()) return;
	for (int i = 0; i < w.x.size(); ++i) { const Exchange& e = w.x.at(i); if (e.finished != 1 || (e.handled != 1 && !e.abort)) c.fail("count", "exchange " + num(i) + " handled " + num(e.handled) + " times, finished " + num(e.finished) + " times"); }
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C21", "Half of the cases give new small objects, such as sockets, the addresses of deleted ones. A server over TCP (IPv4, IPv6), a local socket or TLS with one to sixty raw clients of one to four connections each: requests kept alive, pipelined and cut into pieces, answered at once or piecewise and interleaved; slow readers; clients that quit within a request or response (closing or aborting), send garbage, stay silent, or do not speak TLS; handlers that close their own or other connections; the server destroyed at any step; now and then hundreds of clients first come and go, and the number of connection objects must not follow theirs. Non-trivial: more than one client, or several requests in pieces.",
			2000, 60000, c21, 90, 8, {}, {"TCP", "local socket", "TLS", "more clients than pooled connections", "slow reader", "large response that closes", "quits within requests", "quits within responses", "sends garbage", "without TLS", "server destroyed with requests pending", "connection closed by another's handler", "many connections at rest, then several closed at once", "clients come and go"}},
		{"C24", "One to five of the library's clients and one or two of its servers over TCP: each client makes one to twenty-five requests (any upper-case method, path, query, headers, bodies to 4 MB, Expect: 100-continue), some made from within finished(), some aborted, with read buffer limits, keep-alive timeouts and requests that close; the handler compares the request with what the client sent and answers whole, in pieces of known length, chunked or close-delimited, at once or later, interleaved with others; the client's status, headers and content are compared with what the handler wrote. Non-trivial: several exchanges.",
			8000, 300000, c24, 90, 8, {}, {"several clients", "two servers", "100-continue", "limited read buffer", "keep-alive timeout", "aborted", "large request", "large response", "HEAD", "chunked", "close-delimited", "known length in pieces", "no content", "request closes"}},
	};
	return pbt::main(argc, argv, checks);
}
