// C08 slow readers: every byte of every response arrives unaltered whatever the pace at which the client reads.
#include "plan.h"
#include <QtCore/QFile>
#include <QtCore/QPointer>
#include <QtNetwork/QLocalSocket>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdlib.h>

using namespace Pillow;

namespace {

enum Echo { NoEcho, EchoBody, EchoPath, EchoHeader, EchoPieces, EchoHeaderField };

struct Item { Req q; Plan p; Echo echo; bool later; int delay; bool fromFile; };

struct Log { int ready, completed, closed; bool bad; QByteArray why; };

class Handler : public QObject {
	Q_OBJECT
public:
	QVector<Item> items; int next; Log log; HttpConnection* conn; int pendingStep, rounds; Ctx* c; HttpHandlerFile* files; QPointer<QIODevice> drop; // Deleted once the connection closes, as the servers do.
	Handler(HttpConnection* cn, Ctx* cc) : next(0), conn(cn), pendingStep(-1), rounds(0), c(cc), files(0)
	{
		log.ready = log.completed = log.closed = 0; log.bad = false;
		connect(cn, SIGNAL(requestReady(Pillow::HttpConnection*)), this, SLOT(ready(Pillow::HttpConnection*)));
		connect(cn, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(completed()));
		connect(cn, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(closed()));
	}
	void step(int i)
	{
		const Item& it = items.at(next - 1);
		if (it.fromFile) { files->handleRequest(conn); return; }
		switch (it.echo)
		{
		case NoEcho: it.p.step(conn, i); break;
		case EchoBody: conn->writeResponse(it.p.status, toColl(it.p.headers), conn->requestContent()); break;
		case EchoPath: conn->writeResponse(it.p.status, toColl(it.p.headers), conn->requestPath()); break;
		case EchoHeader: conn->writeResponse(it.p.status, toColl(it.p.headers), conn->requestHeaderValue("X-Echo")); break;
		case EchoHeaderField: { HttpHeaderCollection h = toColl(it.p.headers); h << HttpHeader("X-Echoed", conn->requestHeaderValue("X-Echo")); conn->writeResponse(it.p.status, h, it.p.content); break; }
		case EchoPieces: if (i > 0 && i <= it.p.pieces.size()) conn->writeContent(conn->requestContent()); else it.p.step(conn, i); break;
		}
	}
	int steps() const { const Item& it = items.at(next - 1); return it.fromFile ? 1 : it.echo == NoEcho || it.echo == EchoPieces ? it.p.steps() : 1; }
	// Runs pending answers; called once per round of the event loop.
	void round() { if (pendingStep < 0) return; if (rounds-- > 0) return; int i = pendingStep, n = next; if (i + 1 < steps()) pendingStep = i + 1; else pendingStep = -1; rounds = items.at(n - 1).delay; step(i); }
public slots:
	void ready(Pillow::HttpConnection*)
	{
		++log.ready;
		if (next >= items.size()) { log.bad = true; log.why = "more requests than sent"; return; }
		const Item& it = items.at(next); ++next;
		QByteArray body(conn->requestContent().constData(), conn->requestContent().size());
		if (body != it.q.body || conn->requestUri() != it.q.uri) { log.bad = true; log.why = "request " + num(next - 1) + " differs from what was sent"; }
		if (it.later) { pendingStep = 0; rounds = it.delay; return; }
		int n = steps(); for (int i = 0; i < n; ++i) step(i);
	}
	void completed() { ++log.completed; }
	void closed() { ++log.closed; if (drop) drop->deleteLater(); }
};

int listener = -1; sockaddr_in listenAddr;
void nonBlocking(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }

// Opens a stream between a server-side and a client-side descriptor.
bool openPair(bool tcp, int sndbuf, int rcvbuf, int& server, int& client)
{
	if (!tcp)
	{
		int fds[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fds) != 0) return false;
		server = fds[0]; client = fds[1];
	}
	else
	{
		if (listener < 0)
		{
			listener = socket(AF_INET, SOCK_STREAM, 0); memset(&listenAddr, 0, sizeof listenAddr);
			listenAddr.sin_family = AF_INET; listenAddr.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			socklen_t len = sizeof listenAddr;
			if (bind(listener, (sockaddr*)&listenAddr, sizeof listenAddr) || listen(listener, 16) || getsockname(listener, (sockaddr*)&listenAddr, &len)) { close(listener); listener = -1; return false; }
		}
		client = socket(AF_INET, SOCK_STREAM, 0);
		if (rcvbuf) setsockopt(client, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
		if (connect(client, (sockaddr*)&listenAddr, sizeof listenAddr) != 0) { close(client); return false; }
		server = accept(listener, 0, 0); if (server < 0) { close(client); return false; }
	}
	if (sndbuf) setsockopt(server, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
	nonBlocking(client); nonBlocking(server);
	return true;
}

QByteArray scratchDir;
const QByteArray& fileDir()
{
	static pid_t owner = 0;
	if (owner != getpid()) { owner = getpid(); char t[] = "/tmp/pillow-verif-XXXXXX"; scratchDir = mkdtemp(t); atexit([] { if (scratchDir.startsWith("/tmp/pillow-verif-")) { unlink((scratchDir + "/f.html").constData()); rmdir(scratchDir.constData()); } }); }
	return scratchDir;
}

void c08(Gen& g, Ctx& c)
{
	HttpConnection* conn = new HttpConnection; Handler h(conn, &c);
	int sessions = 1 + int(g.size(3)); bool slow = false;
	QByteArray fileContent; HttpHandlerFile* files = 0; bool fileMade = false;
	for (int s = 0; s < sessions && !c.failed(); ++s)
	{
		if (s > 0) c.label("connection object used again");
		// What is sent and how it is answered.
		h.items.clear(); h.next = 0; h.log.ready = h.log.completed = h.log.closed = 0; h.pendingStep = -1;
		int n = 1 + int(g.size(12)); bool ends = false; QByteArray text; QByteArray d; bool huge = g.chance(1, 600); if (huge) n = qMin(n, 3);
		for (int i = 0; i < n && !ends; ++i)
		{
			Item it; ReqOpts ro; ro.oddMethods = false; ro.oddVersions = false; ro.absoluteUris = false; ro.fragments = false; ro.maxBody = 100000; ro.longFields = g.chance(1, 4);
			it.q = genRequest(g, ro);
			if (i < n - 1) { it.q.version = "HTTP/1.1"; for (int k = it.q.headers.size() - 1; k >= 0; --k) if (ieq(it.q.headers.at(k).first, "connection")) { it.q.headers.remove(k); if (k < it.q.pads.size()) it.q.pads.remove(k); } }
			for (int k = it.q.headers.size() - 1; k >= 0; --k) if (ieq(it.q.headers.at(k).first, "expect")) { it.q.headers.remove(k); if (k < it.q.pads.size()) it.q.pads.remove(k); }
			it.echo = Echo(g.weighted({6, 3, 1, 1, 2, 1})); it.later = g.chance(1, 4); it.delay = int(g.size(6)); it.fromFile = false;
			PlanOpts o; o.keepable = i < n - 1; o.maxPiece = g.chance(1, 3) ? 200000 : 5000;
			it.p = genCompletePlan(g, it.q, o);
			if (it.echo == EchoHeader || it.echo == EchoHeaderField) { it.q.headers << Hdr("X-Echo", g.chars(1 + g.size(3000), "abcdefghijklmnopqrstuvwxyz0123456789")); it.q.pads << " "; }
			if (it.echo != NoEcho && it.echo != EchoPieces)
			{
				// Answered in one call with data of the request.
				Plan p; p.status = 200; p.headers = it.p.headers; for (int k = p.headers.size() - 1; k >= 0; --k) if (ieq(p.headers.at(k).first, "content-length") || ieq(p.headers.at(k).first, "transfer-encoding") || ieq(p.headers.at(k).first, "x-echoed")) p.headers.remove(k);
				p.content = it.echo == EchoBody ? it.q.body : it.echo == EchoPath ? it.q.path : it.echo == EchoHeader ? headerValue(it.q.headers, "X-Echo") : it.p.content;
				if (it.echo == EchoHeaderField) { p.content = g.bytes(g.size(500)); }
				it.p = p;
			}
			else if (it.echo == EchoPieces)
			{
				Plan p; p.whole = false; int k = int(g.u(1, 5)); bool chunked = g.chance(1, 2) && it.q.version == "HTTP/1.1" && !it.q.body.isEmpty();
				for (int j = 0; j < k; ++j) p.pieces << it.q.body;
				if (chunked) { p.headers << Hdr("Transfer-Encoding", "chunked"); p.end = true; } else { p.headers << Hdr("Content-Length", num((long long)k * it.q.body.size())); }
				it.p = p;
				if (it.q.method == "HEAD" || it.q.body.isEmpty()) { it.p.pieces.clear(); it.p.end = it.p.end && it.q.method != "HEAD"; }
			}
			if (it.echo == NoEcho && g.chance(1, 12) && it.q.method != "HEAD" )
			{
				// A file larger than the file handler's buffer.
				if (!fileMade)
				{
					fileContent = g.bytes(g.u(2000, 120000)); QFile f(QString::fromUtf8(fileDir() + "/f.html"));
					if (f.open(QIODevice::WriteOnly)) { f.write(fileContent); f.close(); fileMade = true; }
					files = new HttpHandlerFile(QString::fromUtf8(fileDir()), &h); files->setBufferSize(int(g.u(512, 1900))); h.files = files;
				}
				it.fromFile = true; it.q.method = "GET"; it.q.path = it.q.uri = "/f.html"; it.q.query = QByteArray();
				Plan p; p.headers << Hdr("Content-Type", "text/html"); p.whole = true; p.content = fileContent; it.p = p; it.later = false;
			}
			if (huge && i == n - 1)
			{
				// Megabytes at once: more than any kernel buffer takes.
				it.fromFile = false; it.echo = NoEcho; it.q.method = "GET"; it.later = g.chance(1, 3);
				Plan p; p.whole = g.chance(1, 2); int k = p.whole ? 1 : int(g.u(1, 4)); bool chunked = !p.whole && g.chance(1, 2) && it.q.version == "HTTP/1.1", length = !chunked && g.chance(1, 2); int total = 0;
				for (int j = 0; j < k; ++j) { QByteArray b(int(g.u(1000000, p.whole ? 12000000 : 4000000)), 0); for (int z = 0, zz = b.size(); z < zz; ++z) b.data()[z] = char('a' + (z + j) % 23 + (z >> 16) % 3); total += b.size(); if (p.whole) p.content = b; else p.pieces << b; }
				if (chunked) p.headers << Hdr("Transfer-Encoding", "chunked"); else if (!p.whole && length) p.headers << Hdr("Content-Length", num(total));
				if (g.chance(2, 3)) p.headers << Hdr("Connection", "close");
				if (!p.whole && !length) p.end = true;
				it.p = p; c.label("megabytes at once");
			}
			Model m = modelOf(it.q, it.p);
			if (it.echo == EchoPieces && it.q.method != "HEAD" && it.q.body.isEmpty() && m.length < 0) { }
			if (!m.keep) ends = true;
			if (it.echo != NoEcho) c.label("data of the request echoed");
			if (it.fromFile) c.label("file transfer");
			h.items << it; text += it.q.wire();
			d += "  " + it.q.method + " " + show(it.q.uri, 40) + " " + it.q.version + ", " + num(it.q.body.size()) + " bytes" + (it.later ? ", answered later: " : ": ") + (it.fromFile ? QByteArray("file") : it.echo == NoEcho ? it.p.text() : QByteArray("echo ") + num(it.echo)) + "\n";
		}
		if (h.items.size() > 1) c.label("several requests");
		// The transport.
		int transport = int(g.weighted({6, 1, 1, 2})); // QTcpSocket on a socket pair, on TCP, QLocalSocket, in-memory device.
		int sndbuf = g.chance(3, 4) ? int(g.u(1, 10000)) : 0, rcvbuf = g.chance(1, 2) ? 4096 : 0;
		int readChunk = g.chance(1, 2) ? int(g.u(1, 3000)) : int(g.u(3000, 200000)), idle = int(g.size(8)), stall = g.chance(1, 2) ? int(g.u(1, 40)) : 0;
		int writeChunk = g.chance(1, 2) ? text.size() + 1 : int(g.u(1, 20000));
		if (huge) { sndbuf = 0; readChunk = int(g.u(20000, 400000)); idle = int(g.u(0, 1)); }
		int abortAt = g.chance(1, 8) ? int(g.u(0, 100000)) : -1;
		static const char* const names[] = {"socket pair", "TCP", "local socket", "device"};
		c.desc("session " + num(s) + " over " + names[transport] + ", buffers " + num(sndbuf) + "/" + num(rcvbuf) + ", reads " + num(readChunk) + " every " + num(idle + 1) + " rounds after " + num(stall) + (abortAt >= 0 ? ", abandons after " + num(abortAt) + " bytes" : QByteArray()) + "\n" + d);
		c.label(names[transport]);
		QByteArray got; bool eof = false, aborted = false, reset = false; int sent = 0, round = 0; bool backlog = false;
		QIODevice* in = 0,* out = 0; int cfd = -1;
		PipeDevice* pin = 0,* pout = 0;
		if (transport == 3)
		{
			pin = new PipeDevice; pout = g.chance(1, 2) ? pin : new PipeDevice; pout->hold = true; in = pin; out = pout;
			conn->initialize(in, out);
		}
		else
		{
			int sfd; if (!openPair(transport == 1, sndbuf, rcvbuf, sfd, cfd)) { c.label("no socket pair"); delete conn; return; }
			bool ok;
			if (transport == 2) { QLocalSocket* l = new QLocalSocket; ok = l->setSocketDescriptor(sfd); in = out = l; }
			else { QTcpSocket* t = new QTcpSocket; ok = t->setSocketDescriptor(sfd); in = out = t; }
			if (!ok) { c.label("socket refused"); close(cfd); delete in; delete conn; return; }
			conn->initialize(in, out);
		}
		QPointer<QIODevice> inGuard(in), outGuard(out);
		h.drop = transport != 3 && g.chance(2, 3) ? in : 0;
		QElapsedTimer clock; clock.start(); int quiet = 0; std::vector<char> buffer; buffer.resize(size_t(readChunk));
		while (!eof)
		{
			if (clock.elapsed() > 20000) { c.fail("stuck", "session " + num(s) + ": the exchange does not end: " + num(got.size()) + " bytes received, " + num(h.log.completed) + " of " + num(h.items.size()) + " responses completed, closed " + num(h.log.closed) + ", bytes to write " + num(outGuard ? outGuard->bytesToWrite() : -1)); break; }
			bool progress = false;
			// The client sends.
			if (sent < text.size())
			{
				QByteArray part = text.mid(sent, writeChunk);
				if (transport == 3) { if (pin->isOpen()) { sent += part.size(); pin->feed(part); progress = true; } }
				else { ssize_t k = send(cfd, part.constData(), size_t(part.size()), MSG_NOSIGNAL); if (k > 0) { sent += int(k); progress = true; } }
			}
			settle(1); h.round(); if (h.pendingStep >= 0) progress = true;
			if (h.log.closed == 0 && out->bytesToWrite() > 0) backlog = true;
			// The client reads, now and then.
			if (round >= stall && (round - stall) % (idle + 1) == 0)
			{
				int want = readChunk; if (clock.elapsed() > 5000) want = int(buffer.size()); // Do not let the pace decide how long a case takes.
				if (transport == 3)
				{
					if (!pout->pending.isEmpty()) { progress = true; got += pout->pending.left(qMax(want, pout->pending.size() / 50)); pout->drain(qMax(want, pout->pending.size() / 50)); }
					else if (h.log.closed) eof = true;
				}
				else for (int k = 0; k < 1 + (readChunk < 500 ? 8 : 0); ++k)
				{
					ssize_t r = recv(cfd, buffer.data(), size_t(want), 0);
					if (r > 0) { got.append(buffer.data(), int(r)); progress = true; }
					else if (r == 0) { eof = true; break; }
					else { if (errno != EAGAIN && errno != EWOULDBLOCK) { eof = true; reset = true; } break; }
				}
			}
			else { ++round; continue; }
			++round;
			if (abortAt >= 0 && got.size() >= abortAt && sent > 0) { aborted = true; break; }
			if (progress) { quiet = 0; continue; }
			++quiet;
			// The end of a session that is kept: all is answered and nothing more arrives.
			if (!ends && h.log.completed == h.items.size() && h.log.closed == 0 && out->bytesToWrite() == 0) 
			{
				int at = 0; bool all = true; for (int i = 0; i < h.items.size() && all; ++i) { Resp r; QByteArray err; all = readResponse(got, at, h.items.at(i).q.method == "HEAD", false, r, err) == Ok; }
				if (quiet > 1 && (all || transport != 1)) break;
				if (transport == 1) usleep(500);
			}
			else if (quiet > 20) usleep(quiet > 200 ? 2000 : 100);
		}
		if (backlog) { slow = true; c.label("output pending while more was done"); }
		if (c.failed()) { if (cfd >= 0) close(cfd); delete conn; delete inGuard.data(); delete outGuard.data(); return; }
		c.check(!h.log.bad, "request", "session " + num(s) + ": " + h.log.why);
		if (aborted)
		{
			c.label("client abandons");
			if (cfd >= 0) { close(cfd); cfd = -1; } else pin->peerClose();
			QElapsedTimer t; t.start();
			while (h.log.closed == 0 && t.elapsed() < 20000) { settle(1); h.round(); if (h.log.closed == 0) { if (transport != 3) QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents, 1); } }
			h.pendingStep = -1;
			c.eqn(h.log.closed, 1, "session " + num(s) + ": closed signals after the client went away");
			// What was received is a prefix of the right output.
		}
		int pos = 0;
		for (int i = 0; i < h.items.size() && !c.failed(); ++i)
		{
			const Item& it = h.items.at(i); Model m = modelOf(it.q, it.p); QByteArray where = "session " + num(s) + ", response " + num(i) + ": ";
			Plan p = it.p; if (it.echo == EchoHeaderField) p.headers << Hdr("X-Echoed", headerValue(it.q.headers, "X-Echo"));
			Resp r; QByteArray err; int at = pos; ParseResult pr = readResponse(got, pos, m.head, eof, r, err);
			if (aborted && pr != Ok) { if (pr == Bad) c.fail("bytes", where + err); break; }
			if (aborted && r.framing == Resp::UntilClose) { if (!m.body.startsWith(r.body)) c.fail("bytes", where + "what was received is no prefix of the content"); break; }
			if (pr != Ok) { c.fail("bytes", where + err + ", received " + num(got.size()) + " bytes in all, this response starts at " + num(at) + (reset ? " (connection reset)" : "")); break; }
			if (it.fromFile) { c.eqn(r.status, 200, where + "status"); c.eq(r.body, m.body, where + "body"); }
			else compareResponse(c, r, it.q, p, m, where);
		}
		if (!aborted && !c.failed())
		{
			c.eqn(got.size(), pos, "bytes received");
			c.eqn(h.log.completed, h.items.size(), "completed responses");
			c.eqn(eof ? 1 : 0, ends ? 1 : 0, "connection closed by the server");
			if (!ends)
			{
				if (cfd >= 0) { close(cfd); cfd = -1; } else pin->peerClose();
				QElapsedTimer t; t.start();
				while (h.log.closed == 0 && t.elapsed() < 20000) { settle(1); if (h.log.closed == 0) QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents, 1); }
			}
			else settle(2);
			c.eqn(h.log.closed, 1, "closed signals");
		}
		if (cfd >= 0) close(cfd);
		if (g.chance(1, 2)) { if (inGuard) in->deleteLater(); if (outGuard && out != in) out->deleteLater(); settle(1); } else { delete inGuard.data(); delete outGuard.data(); }
	}
	delete conn;
	if (slow) c.nontrivial();
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C08", "Sessions of pipelined requests answered whole, piecewise, chunked, from a file or with data of the request itself (body, path, header), at once or some rounds later, over a QTcpSocket on a socket pair or TCP, a QLocalSocket or an in-memory device, now and then several megabytes at once, with small kernel buffers and a client that reads at its own pace and may leave; one connection object for all sessions. Compared byte by byte with the responses asked for. Non-trivial: output was pending while the connection went on.",
			40000, 800000, c08, 90, 7, {"The client sends nothing after the request whose response ends the connection."}, {"output pending while more was done", "data of the request echoed", "socket pair", "TCP", "local socket", "device", "client abandons", "connection object used again", "file transfer", "megabytes at once"}},
	};
	return pbt::main(argc, argv, checks);
}

#include "check_slow.moc"
