// C09 file contents, C10 file containment.
#include "support.h"
#include <sys/resource.h>
#include <QtCore/QFile>
#include <QtCore/QDir>
#include <QtCore/QMap>
#include <dirent.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <limits.h>

using namespace Pillow;

namespace {

struct Scratch {
	QByteArray path;
	Scratch() { char t[] = "/tmp/pillow-verif-XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); abort(); } path = t; char r[PATH_MAX]; if (realpath(t, r)) path = r; }
	~Scratch() { if (path.startsWith("/tmp/pillow-verif-")) QDir(QString::fromUtf8(path)).removeRecursively(); }
};
bool put(const QByteArray& path, const QByteArray& content)
{
	int slash = path.lastIndexOf('/'); QDir().mkpath(QString::fromUtf8(path.left(slash)));
	FILE* f = fopen(path.constData(), "wb"); if (!f) return false; bool ok = fwrite(content.constData(), 1, content.size(), f) == size_t(content.size()); return fclose(f) == 0 && ok;
}
// Percent-encodes what may not appear in a request path, and more at random.
QByteArray encode(Gen& g, const QByteArray& name, bool extra)
{
	QByteArray r; char t[8];
	for (int i = 0; i < name.size(); ++i)
	{
		unsigned char ch = name.at(i); bool plain = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch && strchr("-._~/", ch));
		if (plain && !(extra && g.chance(1, 6))) r += char(ch); else { snprintf(t, sizeof t, g.chance(1, 2) ? "%%%02X" : "%%%02x", ch); r += t; }
	}
	return r;
}
QByteArray refMime(const QByteArray& name)
{
	static const struct { const char* ext; const char* type; } t[] = {{".html", "text/html"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".png", "image/png"}, {".gif", "image/gif"}, {".css", "text/css"}, {".js", "text/javascript"}, {".xml", "text/xml"}};
	for (unsigned i = 0; i < sizeof t / sizeof *t; ++i) if (ieq(name.right(int(strlen(t[i].ext))), t[i].ext)) return t[i].type;
	return "application/octet-stream";
}

class Driver : public QObject {
	Q_OBJECT
public:
	QVector<int> results; int ready; HttpHandler* handler; HttpConnection* conn; int completed, closed; bool wroteWhenDeclined; PipeDevice* out;
	Driver(HttpConnection* c, HttpHandler* h, PipeDevice* o) : ready(0), handler(h), conn(c), completed(0), closed(0), wroteWhenDeclined(false), out(o)
	{
		connect(c, SIGNAL(requestReady(Pillow::HttpConnection*)), this, SLOT(isReady(Pillow::HttpConnection*)));
		connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(isDone()));
		connect(c, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(isShut()));
	}
public slots:
	void isReady(Pillow::HttpConnection* c)
	{
		int before = out->all().size(), i = ready++;
		while (results.size() <= i) results << -1;
		HttpConnection::State s = c->state();
		bool r = handler->handleRequest(c);
		results[i] = r;
		if (!r)
		{
			if (out->all().size() != before || c->state() != s) wroteWhenDeclined = true;
			c->writeResponse(418 - 14, HttpHeaderCollection() << HttpHeader("X-Declined", "1"), "declined"); // 404
		}
	}
	void isDone() { ++completed; }
	void isShut() { ++closed; }
};

// Changes one byte, or adds or removes one at the end.
void vary(Gen& g, QByteArray& d)
{
	switch (g.weighted({3, 3, 1, 1}))
	{
	case 0: { int i = int(g.u(0, uint32_t(d.size() - 1))); d[i] = char(d.at(i) ^ (1 << g.u(0, 7))); break; }
	case 1: { int i = d.size() - 1; d[i] = char(d.at(i) + 1); break; }
	case 2: d += 'x'; break;
	default: d.chop(1); break;
	}
}
struct Target { QByteArray name, content; bool isFile; };
struct Exchange { Req req; int target; bool head, close, matching, unreadable; Exchange() : target(0), head(false), close(false), matching(false), unreadable(false) {} };
// No file can be opened while it lives.
struct NoFiles { rlimit old; NoFiles() { getrlimit(RLIMIT_NOFILE, &old); rlimit l = old; int fd = dup(0); l.rlim_cur = rlim_t(fd); close(fd); setrlimit(RLIMIT_NOFILE, &l); } ~NoFiles() { setrlimit(RLIMIT_NOFILE, &old); } };

// The files below dir that this process has open.
int openBelow(const QByteArray& dir)
{
	int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0;
	while (dirent* e = readdir(d)) { char to[4096]; ssize_t len = readlink((QByteArray("/proc/self/fd/") + QByteArray(e->d_name)).constData(), to, sizeof to); if (len > 0 && QByteArray(to, int(len)).startsWith(dir + "/")) ++n; }
	closedir(d); return n;
}

void c09(Gen& g, Ctx& c)
{
	Scratch scratch; QByteArray pub = scratch.path + "/pub"; mkdir(pub.constData(), 0755);
	int bs; switch (g.weighted({3, 2, 1, 1})) { case 0: bs = int(g.u(512, 2000)); break; case 1: bs = int(g.u(0, 600)); break; case 2: bs = int(g.u(2000, 70000)); break; default: bs = g.chance(1, 2) ? int(g.u(66000, 150000)) : int(HttpHandlerFile::DefaultBufferSize); break; }
	QVector<Target> files; int nf = int(g.u(1, 4));
	for (int i = 0; i < nf; ++i)
	{
		Target t; t.isFile = true;
		t.name = "/" + (g.chance(1, 3) ? g.pickB({"sub/", "a b/", "sub/deep/"}) : QByteArray()) + g.pickB({"f", "name with space", "100%", "\xc3\xa9t\xc3\xa9", "a+b", "q?x", "h#y", ".hidden", "UP"}) + num(i) + g.pickB({".html", ".HTML", ".jpg", ".JPEG", ".png", ".gif", ".css", ".js", ".xml", ".txt", "", ".htm", ".js.gz", ".Css", "xml", ".html.", ".jpeg"});
		int size;
		switch (g.weighted({4, 3, 2, 1})) { case 0: size = qMax(0, bs - 2 + int(g.u(0, 4))); break; case 1: size = int(g.size(uint32_t(qMax(10, 2 * bs)))); break; case 2: size = bs * int(g.u(1, 6)) + int(g.u(0, 3)); break; default: size = int(g.u(0, 300000)); break; }
		if (bs > 70000 && !g.chance(1, 10)) size = int(g.size(3000)); else if (bs > 66000 && bs < 150000) size = bs * int(g.u(2, 5));
		t.content = !files.isEmpty() && g.chance(1, 5) ? files.last().content : g.bytes(uint32_t(size));
		if (!files.isEmpty() && !t.content.isEmpty() && t.content == files.last().content && g.chance(1, 2)) vary(g, t.content);
		if (!put(pub + t.name, t.content)) return;
		files << t;
	}
	{ Target t; t.isFile = false; t.name = "/missing"; files << t; t.name = "/sub"; mkdir((pub + "/sub").constData(), 0755); files << t; t.name = "/"; files << t; }
	HttpHandlerFile handler(QString::fromUtf8(pub)); handler.setBufferSize(bs);
	PipeDevice dev; HttpConnection conn; Driver d(&conn, &handler, &dev);
	dev.hold = g.chance(1, 2); int pace = g.chance(1, 2) ? int(g.u(1, 400)) : int(g.u(400, 100000));
	conn.initialize(&dev, &dev);
	QMap<QByteArray, QByteArray> etags; // By content.
	int n = 1 + int(g.size(6)); bool ended = false; QByteArray text;
	QVector<Exchange> x; bool pipelined = g.chance(1, 2);
	c.desc("buffer " + num(bs) + (pipelined ? ", pipelined" : "") + (dev.hold ? ", reader takes " + num(pace) : QByteArray(", immediate reader")) + "\n");
	int pos = 0;
	auto pump = [&](int upTo) {
		// Lets the transport make progress until it stays quiet.
		int idle = 0, volume = 0; for (const Exchange& e : x) volume += files.at(e.target).content.size();
		for (int i = 0; i < 200000 && idle < 3; ++i)
		{
			bool progress = false;
			if (dev.hold) { if (!dev.pending.isEmpty()) { dev.drain(qMax(qMax(pace, volume / 20000), dev.pending.size() / 300)); progress = true; } }
			else progress = dev.notify();
			settle(1);
			if (dev.unannounced > 0 || !dev.pending.isEmpty()) progress = true;
			if (progress) idle = 0; else ++idle;
		}
		(void)upTo;
	};
	auto judge = [&](int i) {
		const Exchange& e = x.at(i); const Target& t = files.at(e.target); QByteArray where = "response " + num(i) + ": ";
		Resp r; QByteArray err, all = dev.all();
		ParseResult pr = readResponse(all, pos, e.head, e.close, r, err);
		if (pr != Ok) { c.fail("response", where + err + " at the end of " + num(all.size()) + " bytes, request " + show(e.req.headWire(), 200)); return; }
		if (!c.check(i < d.results.size(), "handled", where + "request not handled")) return;
		if (!t.isFile) { c.eqn(d.results.at(i), 0, where + "handleRequest for " + t.name); c.eqn(r.status, 404, where + "status of a declined request"); c.label("declined"); return; }
		c.eqn(d.results.at(i), 1, where + "handleRequest for " + t.name);
		if (e.unreadable) { c.eqn(r.status, 403, where + "status for a file that can not be opened"); c.eq(headerValue(r.headers, "etag"), "", where + "ETag of a file that can not be opened"); c.label("file that can not be opened"); return; }
		QByteArray etag = headerValue(r.headers, "etag");
		bool small = t.content.size() <= bs;
		if (small && e.matching && etags.contains(t.content)) { c.eqn(r.status, 304, where + "status with a matching If-None-Match"); c.eq(r.body, "", where + "body of a 304"); c.label("304"); return; }
		c.eqn(r.status, 200, where + "status");
		c.eq(headerValue(r.headers, "content-length"), num(t.content.size()), where + "Content-Length");
		c.eq(headerValue(r.headers, "content-type"), refMime(t.name), where + "Content-Type of " + t.name);
		if (!e.head) c.eq(r.body, t.content, where + "body");
		c.label(small ? "file fits in the buffer" : "file larger than the buffer"); if (e.head) c.label(small ? "HEAD" : "HEAD of a file larger than the buffer");
		if (small)
		{
			if (!c.check(!etag.isEmpty(), "no etag", where + "no ETag")) return;
			if (etags.contains(t.content)) c.eq(etag, etags.value(t.content), where + "ETag of the same content");
			for (QMap<QByteArray, QByteArray>::const_iterator it = etags.constBegin(); it != etags.constEnd(); ++it) if (it.key() != t.content) c.check(it.value() != etag, "etag", where + "different contents have the same ETag");
			etags[t.content] = etag;
		}
	};
	for (int i = 0; i < n && !ended && !c.failed(); ++i)
	{
		Exchange e; e.target = int(g.chance(4, 5) ? g.u(0, uint32_t(nf - 1)) : g.u(0, uint32_t(files.size() - 1))); e.head = g.chance(1, 3); e.close = g.chance(1, 8); e.matching = false;
		const Target& t = files.at(e.target);
		e.req.method = e.head ? "HEAD" : "GET"; e.req.version = g.chance(1, 8) ? "HTTP/1.0" : "HTTP/1.1"; if (e.req.version == "HTTP/1.0") { e.close = !g.chance(1, 2); if (!e.close) e.req.headers << Hdr("Connection", "keep-alive"); }
		else if (e.close) e.req.headers << Hdr("Connection", "close");
		e.req.path = e.req.uri = "/" + encode(g, t.name.mid(1), g.chance(1, 2)); if (g.chance(1, 6)) { e.req.query = "v=1"; e.req.uri += "?v=1"; }
		if (!pipelined && g.chance(1, 3))
		{
			QByteArray v; if (etags.contains(t.content) && g.chance(2, 3)) { v = etags.value(t.content); e.matching = true; } else { v = g.pickB({"deadbeef", "\"x\"", "*x", "0"}); for (const QByteArray& other : etags) if (g.chance(1, 2) && t.isFile && other != etags.value(t.content)) v = other;
				if (etags.contains(t.content) && g.chance(1, 2)) { v = etags.value(t.content); switch (g.u(0, 4)) { case 0: v.chop(1); break; case 1: v.remove(0, 1); break; case 2: v += g.pickB({"0", "a"}); break; case 3: v.prepend(g.pickB({"0", "f"})); break; default: { int at = int(g.u(0, uint32_t(v.size() - 1))); v[at] = v.at(at) == '0' ? '1' : '0'; } } c.label("almost matching tag"); } }
			e.req.headers << Hdr(g.pickB({"If-None-Match", "if-none-match"}), v);
		}
		x << e; c.desc(" " + e.req.method + " " + e.req.uri + " " + e.req.version + (t.isFile ? ": file of " + num(t.content.size()) : QByteArray(": no file")) + (e.close ? ", close" : "") + (e.matching ? ", matching etag" : "") + "\n");
		if (e.close) ended = true;
		if (!pipelined)
		{
			if (t.isFile && !e.close && g.chance(1, 25)) { x.last().unreadable = true; c.desc("  (no file can be opened)\n"); }
			{ dev.maxPending = 0; NoFiles* none = x.last().unreadable ? new NoFiles : 0; dev.feed(e.req.wire()); delete none; } pump(i + 1); judge(i);
			if (dev.hold && t.content.size() > 3 * qMax(bs, 512)) { c.label("much larger than the buffer, slow reader"); c.check(dev.maxPending <= 2 * qMax(bs, 512) + 4096, "memory", num(dev.maxPending) + " bytes waited to be sent at once, with a buffer of " + num(bs)); }
			// The file may change between requests.
			if (!c.failed() && t.isFile && g.chance(1, 4)) { QByteArray& fc = files[e.target].content; if (!fc.isEmpty() && g.chance(1, 2)) vary(g, fc); else fc = g.bytes(g.size(uint32_t(2 * bs + 10) % 200000)); if (!put(pub + t.name, files.at(e.target).content)) return; c.label("file changed"); }
		}
		else text += e.req.wire();
	}
	if (x.size() > 1) c.nontrivial();
	if (pipelined) { if (x.size() > 1) c.label("pipelined"); dev.feed(text); pump(x.size()); for (int i = 0; i < x.size() && !c.failed(); ++i) judge(i); }
	if (c.failed()) return;
	c.check(!d.wroteWhenDeclined, "declined", "something was written for a declined request");
	c.eqn(dev.all().size(), pos, "bytes on the wire");
	c.eqn(d.ready, x.size(), "requests"); c.eqn(d.completed, x.size(), "completed requests");
	c.eqn(d.closed, ended ? 1 : 0, "closed signals");
	if (g.chance(1, 4) && !ended) { dev.peerClose(); settle(2); }
	settle(1); if (!c.eqn(openBelow(scratch.path), 0, "files still open after all responses are complete") || !g.chance(1, 3)) return;
	// A file that changes its size while it is sent.
	if (g.chance(1, 3))
	{
		const int t = int(g.u(0, uint32_t(nf - 1))); const QByteArray path = pub + files.at(t).name; QByteArray content = files.at(t).content; if (content.size() <= 2 * bs && bs < 20000) { content = g.bytes(uint32_t(qMax(bs, 512) * int(g.u(2, 6)) + int(g.u(0, 600)))); if (!put(path, content)) return; }
		PipeDevice dev2; dev2.hold = true; HttpConnection conn2; Driver d2(&conn2, &handler, &dev2); conn2.initialize(&dev2, &dev2);
		const bool large = content.size() > bs; dev2.feed("GET /" + encode(g, files.at(t).name.mid(1), false) + " HTTP/1.1\r\n\r\n"); settle(1);
		for (int i = int(g.u(0, 3)); i > 0; --i) { dev2.drain(int(g.u(1, uint32_t(qMax(1, dev2.pending.size()))))); settle(1); }
		const bool grows = g.chance(1, 2);
		if (grows) { QFile f(QString::fromUtf8(path)); if (!f.open(QIODevice::Append)) return; f.write(g.bytes(g.u(1, 5000))); }
		else if (truncate(path.constData(), g.u(0, uint32_t(content.size()))) != 0) return;
		if (large) c.label(grows ? "file that grows while it is sent" : "file that shrinks while it is sent"); c.desc(" " + files.at(t).name + " of " + num(content.size()) + (grows ? " grows" : " shrinks") + " while it is sent\n");
		for (int i = 0, idle = 0; i < 20000 && idle < 3; ++i) { ++idle; if (!dev2.pending.isEmpty()) { dev2.drain(qMax(bs, 1 + dev2.pending.size() / 3)); idle = 0; } settle(1); }
		int p2 = 0; Resp r; QByteArray err; QByteArray all = dev2.all(); ParseResult pr = readResponse(all, p2, false, false, r, err);
		if (pr == Ok) { c.eq(r.body, content, "body of a file that changed its size while it was sent"); c.eqn(all.size(), p2, "bytes on the wire"); c.eqn(d2.closed, 0, "closed signals"); }
		else
		{
			c.check(!grows, "file that grows", "a file that grew while it was sent: " + err + " at the end of " + num(all.size()) + " bytes for " + num(content.size()) + " announced");
			c.eqn(d2.closed, 1, "closed signals for a file that got too short while it was sent"); int body = all.indexOf("\r\n\r\n"); c.check(body > 0 && content.startsWith(all.mid(body + 4)), "bytes", "what was sent of the file is not what it began with");
		}
		settle(1); c.eqn(openBelow(scratch.path), 0, "files still open after a file that changed its size"); if (c.failed()) return;
		if (!put(path, files.at(t).content)) return;
	}
	// Transfers that are cut short.
	for (int k = int(1 + g.u(0, 2)); k > 0 && !c.failed(); --k)
	{
		const Target& t = files.at(int(g.u(0, uint32_t(nf - 1)))); PipeDevice* dev2 = new PipeDevice; dev2->hold = true; HttpConnection* conn2 = new HttpConnection; Driver* d2 = new Driver(conn2, &handler, dev2); conn2->initialize(dev2, dev2);
		dev2->feed((g.chance(1, 6) ? "HEAD /" : "GET /") + encode(g, t.name.mid(1), false) + " HTTP/1.1\r\n\r\n"); settle(1);
		for (int i = int(g.u(0, 4)); i > 0; --i) { dev2->drain(int(g.u(1, uint32_t(qMax(1, dev2->pending.size()))))); settle(1); }
		const bool partial = dev2->all().size() < t.content.size(); if (partial) c.label("transfer cut short");
		switch (g.u(0, 3))
		{
		case 0: c.desc(" " + t.name + ": the peer closes\n"); dev2->peerClose(); settle(2); delete conn2; break;
		case 1: c.desc(" " + t.name + ": the server closes\n"); conn2->close(); settle(2); c.eqn(openBelow(scratch.path), 0, "files still open after the connection was closed"); delete conn2; break;
		case 2: c.desc(" " + t.name + ": the connection is destroyed\n"); delete conn2; c.label("connection destroyed"); break;
		default: c.desc(" " + t.name + ": the peer closes, the connection is used again\n"); dev2->peerClose(); settle(2); { PipeDevice dev3; conn2->initialize(&dev3, &dev3); settle(1); c.eqn(openBelow(scratch.path), 0, "files still open after the connection was closed"); delete conn2; } break;
		}
		settle(2); c.eqn(openBelow(scratch.path), 0, "files still open after the connection is gone");
		delete d2; delete dev2;
	}
}

//
// C10
//
void c10(Gen& g, Ctx& c)
{
	Scratch scratch; const QByteArray root = scratch.path;
	// The public directory and what lies around it.
	QByteArray pubName = g.pickB({"pub", "www", "a b", "p"}), pub = root + "/" + pubName;
	put(pub + "/index.html", "inside index"); put(pub + "/sub/a.txt", "inside a"); put(pub + "/sub/deep/b.txt", "inside b"); put(pub + "/..dots", "inside ..dots"); put(pub + "/" + pubName + "/c.txt", "inside nested"); put(pub + "/%2e%2e", "inside percent"); put(pub + "/back\\slash", "inside backslash"); put(pub + "/...", "inside three dots");
	put(root + "/secret.txt", "outside secret"); put(root + "/" + pubName + "-secret/x.txt", "outside sibling"); put(root + "/" + pubName + "x", "outside prefix file"); put(root + "/other/y.txt", "outside other"); put(root + "/" + pubName + ".bak", "outside backup");
	QVector<QByteArray> links;
	auto link = [&](const QByteArray& to, const QByteArray& name) { if (symlink(to.constData(), (pub + "/" + name).constData()) == 0) links << name; };
	if (g.chance(1, 2)) link("../secret.txt", "l-secret"); if (g.chance(1, 2)) link("../" + pubName + "-secret", "l-sibling"); if (g.chance(1, 2)) link("..", "l-up"); if (g.chance(1, 2)) link("sub/a.txt", "l-inside"); if (g.chance(1, 2)) link("sub", "l-dir"); if (g.chance(1, 2)) link("nowhere", "l-dangling"); if (g.chance(1, 3)) link(root + "/other", "l-abs"); if (g.chance(1, 3)) link(".", "l-self"); if (g.chance(1, 3)) link("/", "l-root"); if (g.chance(1, 4)) link("loop2", "loop1"), link("loop1", "loop2"); if (g.chance(1, 3)) link("../" + pubName + "x", "l-prefix"); if (g.chance(1, 3)) link("../" + pubName + "/index.html", "l-roundtrip");
	if (g.chance(1, 6)) mkfifo((pub + "/fifo").constData(), 0600);
	QByteArray configured = pub; bool empty = false;
	switch (g.weighted({8, 1, 1, 1, 1, 1, 1}))
	{
	case 1: configured = pub + "/"; break;
	case 2: configured = root + "/other/../" + pubName; break;
	case 3: symlink(pub.constData(), (root + "/link-to-pub").constData()); configured = root + "/link-to-pub"; c.label("public path is a link"); break;
	case 4: configured = ""; empty = true; break;
	case 5: configured = root + "/nowhere"; empty = true; break;
	case 6: configured = pub + "/sub"; pub = configured; break;
	}
	if (empty) c.label("no public path");
	HttpHandlerFile handler(g.chance(1, 2) ? QString::fromUtf8(configured) : QString());
	if (handler.publicPath().isEmpty() && !empty) handler.setPublicPath(QString::fromUtf8(configured));
	if (empty && g.chance(1, 3)) { handler.setPublicPath(QString::fromUtf8(root + "/" + pubName)); handler.setPublicPath(QString::fromUtf8(configured)); }
	if (g.chance(1, 2)) handler.setBufferSize(int(g.u(1, 20)));
	PipeDevice dev; HttpConnection conn; Driver d(&conn, &handler, &dev); conn.initialize(&dev, &dev);
	c.desc("tree at " + root + ", public path " + configured + "\n");
	int n = 1 + int(g.size(12)), pos = 0;
	for (int i = 0; i < n && !c.failed(); ++i)
	{
		QByteArray raw; int segs = int(g.u(1, 6));
		if (g.chance(1, 3))
		{
			// From a path that exists somewhere, reached in a roundabout way.
			QByteArray up = g.pickB({"", "/..", "/../..", "/sub/..", "/sub/../..", "/.", "//", "/sub/deep/../../..", "/l-up", "/l-dir/..", "/l-self", "/l-sibling", "/l-abs", "/..dots/..", "/nowhere/../..", "/l-root" });
			QByteArray to = g.pickB({"/index.html", "/sub/a.txt", "/secret.txt", "/PUB-secret/x.txt", "/PUBx", "/PUB.bak", "/PUB/index.html", "/other/y.txt", "/sub/deep/b.txt", "-secret/x.txt", "x", ".bak", "ROOT/secret.txt", "ROOT/PUB/index.html", "/a.txt", "/x.txt", "/y.txt", "/etc/passwd"});
			to.replace("PUB", pubName); to.replace("ROOT", root);
			raw = up + to; if (!raw.startsWith('/')) raw.prepend('/');
		}
		else for (int s = 0; s < segs; ++s)
		{
			raw += g.chance(1, 10) ? "//" : "/";
			QByteArray seg = g.pickB({"..", "..", ".", "sub", "deep", "a.txt", "b.txt", "index.html", "secret.txt", "PUB", "PUB-secret", "x.txt", "PUBx", "other", "y.txt", "..dots", "%2e%2e", "...", "back\\slash", "c.txt", "nowhere", "", "fifo", "..%00", "index.html%00.png"});
			if (!links.isEmpty() && g.chance(1, 5)) seg = g.pick(std::vector<QByteArray>(links.begin(), links.end()));
			if (seg.contains("%00")) { seg.replace("%00", QByteArray(1, 0)); }
			seg.replace("PUB", pubName);
			raw += seg;
		}
		if (g.chance(1, 12)) raw += "/";
		if (g.chance(1, 20)) raw = "/" + root + raw;
		QByteArray enc; bool extra = g.chance(1, 2), slashes = g.chance(1, 5);
		{
			QByteArray e = encode(g, raw, extra);
			if (slashes) { QByteArray o = e.left(1); for (int k = 1; k < e.size(); ++k) if (e.at(k) == '/' && g.chance(1, 2)) o += "%2F"; else o += e.at(k); e = o; c.label("encoded slashes"); }
			// Sometimes encoded twice: names literal percent signs.
			if (g.chance(1, 15)) e.replace("%", "%25");
			enc = e;
		}
		if (!enc.startsWith('/')) enc.prepend('/');
		QByteArray decoded = refPercentDecode(enc);
		// File names end at a NUL; what matters is where the file served is.
		if (decoded.contains('\0')) { decoded.truncate(decoded.indexOf('\0')); c.label("NUL in the path"); }
		// Where that really is.
		bool inside = false; QByteArray content; char real[PATH_MAX]; char realPub[PATH_MAX];
		if (!empty && realpath(configured.constData(), realPub) && realpath((QByteArray(realPub) + decoded).constData(), real))
		{
			struct stat st;
			if (stat(real, &st) == 0 && S_ISREG(st.st_mode) && QByteArray(real).startsWith(QByteArray(realPub) + "/"))
			{
				inside = true; FILE* f = fopen(real, "rb"); if (f) { char b[256]; size_t k = fread(b, 1, sizeof b, f); content = QByteArray(b, int(k)); fclose(f); }
			}
			else c.label("exists but not to be served");
		}
		if (inside) c.label("inside");
		if (decoded.contains("..") || decoded.contains("l-")) c.nontrivial();
		Req r; r.method = "GET"; r.version = "HTTP/1.1"; r.path = r.uri = enc;
		c.desc(" GET " + enc + (inside ? " -> " + content : QByteArray(" -> declined")) + "\n");
		dev.feed(r.wire());
		for (int k = 0; k < 60; ++k) { bool p = dev.notify(); settle(1); if (!p && k > 2) break; }
		Resp resp; QByteArray err, all = dev.all();
		if (readResponse(all, pos, false, false, resp, err) != Ok) { c.fail("response", "response to " + enc + ": " + err); return; }
		if (!c.eqn(d.results.size(), i + 1, "requests handled")) return;
		if (!inside)
		{
			c.check(!resp.body.startsWith("outside") && d.results.at(i) == 0, "served outside", "GET " + enc + " was answered " + num(resp.status) + " \"" + show(resp.body, 100) + "\" although it is not a file inside the public directory");
			c.check(!d.wroteWhenDeclined, "declined", "something was written for the declined " + enc);
		}
		else
		{
			c.eqn(d.results.at(i), 1, "handleRequest for " + enc);
			c.eqn(resp.status, 200, "status for " + enc); c.eq(resp.body, content, "body for " + enc);
		}
	}
}

}

int main(int argc, char** argv)
{
	std::vector<pbt::Check> checks = {
		{"C09", "One to four generated files (sizes around multiples of the buffer size, odd names, all documented extensions in mixed case, equal contents), a buffer size, and a sequence of GET/HEAD requests on one connection (keep-alive, close, HTTP/1.0, pipelined or not, If-None-Match with matching, almost matching, other and stale tags, files rewritten or changed by a single byte in between, files that can not be opened), with a reader that takes the output in pieces. Compared with the files' bytes; what waits to be sent is bounded by the buffer size. Then files that grow or shrink while they are sent, and transfers cut short; the files this process has open are counted. Non-trivial: two or more requests.",
			45000, 1500000, c09, 60, 7, {"The size a file had when its response began is the one that is announced.", "The MIME table is the documented one."}, {"304", "file larger than the buffer", "HEAD of a file larger than the buffer", "pipelined", "declined", "file changed", "much larger than the buffer, slow reader", "file that can not be opened", "almost matching tag", "transfer cut short", "file that grows while it is sent", "file that shrinks while it is sent"}},
		{"C10", "A scratch tree with files inside and around the public directory (names sharing its prefix included), symbolic links in and out, loops, a FIFO; a configured path (plain, trailing slash, via a link, with '..', empty, missing); requests composed of '..', '.', repeated and encoded slashes, percent-encoding (also double), NUL, absolute pieces and links. Oracle: realpath(3). Non-trivial: the path has '..' or goes through a link.",
			40000, 1200000, c10, 40, 7, {"The process may read every file of the tree."}, {"inside", "exists but not to be served", "encoded slashes", "no public path"}},
	};
	return pbt::main(argc, argv, checks);
}

#include "check_file.moc"
