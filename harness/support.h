// Devices, generators and reference readers shared by the checks.
#ifndef SUPPORT_H
#define SUPPORT_H
#include "pbt.h"
#include <QtCore/QIODevice>
#include <QtCore/QCoreApplication>
#include <QtCore/QElapsedTimer>
#include <QtCore/QPair>
#include <QtCore/QUrl>
#include <QtCore/QPointer>
#include <QtNetwork/QTcpSocket>
#include <QtNetwork/QTcpServer>
#include "HttpConnection.h"
#include "HttpHandler.h"
#include "HttpHeader.h"
#include "HttpServer.h"
#include <functional>
#include <memory>

using pbt::Gen;
using pbt::Ctx;
using pbt::show;

typedef QPair<QByteArray, QByteArray> Hdr;
typedef QVector<Hdr> Hdrs;

// An in-memory sequential device. Bytes fed to it are readable by the connection; bytes written to it are delivered at
// once, or held until drain() is called when hold is set (a transport with a slow reader).
class PipeDevice : public QIODevice {
public:
	QByteArray in, delivered, pending; int maxPending;
	bool hold;
	bool autoNotify; // Announce immediate deliveries through bytesWritten() when notify() is called.
	qint64 unannounced;
	bool writtenAfterClose;
	PipeDevice(QObject* parent = 0) : QIODevice(parent), maxPending(0), hold(false), autoNotify(false), unannounced(0), writtenAfterClose(false) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return QIODevice::bytesAvailable() + in.size(); }
	qint64 bytesToWrite() const { return pending.size(); }
	void feed(const QByteArray& data) { in += data; emit readyRead(); }
	// Hands up to n held bytes to the reader.
	void drain(int n)
	{
		n = qMin(n, pending.size()); if (n <= 0) return;
		delivered += pending.left(n); pending.remove(0, n);
		emit bytesWritten(n);
	}
	// Announces what was delivered immediately since the last call (a buffered device does so from the event loop).
	bool notify() { if (unannounced == 0) return false; qint64 n = unannounced; unannounced = 0; emit bytesWritten(n); return true; }
	void peerClose() { if (isOpen()) close(); }
	QByteArray all() const { return delivered + pending; }
protected:
	qint64 readData(char* data, qint64 max) { qint64 n = qMin<qint64>(max, in.size()); memcpy(data, in.constData(), n); in.remove(0, int(n)); return n; }
	qint64 writeData(const char* data, qint64 n)
	{
		if (hold) { pending.append(data, int(n)); maxPending = qMax(maxPending, pending.size()); } else { delivered.append(data, int(n)); unannounced += n; }
		return n;
	}
};

// Runs the event loop until cond holds or ms elapsed. Returns cond().
bool waitUntil(const std::function<bool()>& cond, int ms = 20000);
// Delivers posted events and zero timers without waiting.
void settle(int rounds = 3);

bool ieq(const QByteArray& a, const QByteArray& b); // Reference ASCII case-insensitive comparison.
QByteArray asciiLower(const QByteArray& a);
Hdrs toHdrs(const Pillow::HttpHeaderCollection& c);
Pillow::HttpHeaderCollection toColl(const Hdrs& h);
QByteArray showHdrs(const Hdrs& h);
bool hasHeader(const Hdrs& h, const QByteArray& name);
QByteArray headerValue(const Hdrs& h, const QByteArray& name); // First.
QByteArray num(long long n);

//
// Responses, read independently of the library.
//
struct Resp {
	enum Framing { NoBody, Length, Chunked, UntilClose };
	QByteArray version, reason, body; int status; Hdrs headers; Framing framing; QVector<int> chunks; long long length;
	QByteArray head; // Raw head.
	Resp() : status(0), framing(NoBody), length(-1) {}
};
enum ParseResult { Ok, Incomplete, Bad };
// Reads one response at pos. head: it answers a HEAD request. eof: nothing follows the data.
ParseResult readResponse(const QByteArray& data, int& pos, bool head, bool eof, Resp& out, QByteArray& err);

//
// Requests.
//
struct Req {
	QByteArray method, uri, path, query, fragment, version; bool hasFragment; Hdrs headers; QVector<QByteArray> pads; QByteArray body;
	QByteArray wire() const;
	QByteArray headWire() const;
	Req() : hasFragment(false) {}
};
struct ReqOpts {
	bool absoluteUris, fragments, bodies, longFields, keepAliveHeaders, expect, nonAscii, oddMethods, oddVersions; int maxBody;
	ReqOpts() : absoluteUris(true), fragments(true), bodies(true), longFields(true), keepAliveHeaders(true), expect(true), nonAscii(true), oddMethods(true), oddVersions(true), maxBody(70000) {}
};
Req genRequest(Gen& g, const ReqOpts& o = ReqOpts());
QByteArray genPath(Gen& g, bool nonAscii, int maxLen = 60);
QByteArray genQuery(Gen& g, bool nonAscii, int maxLen = 60);
QByteArray genHeaderName(Gen& g);
QByteArray genHeaderValue(Gen& g, int maxLen = 40);

QByteArray refPercentDecode(const QByteArray& b);

// What a handler could read from a request when it was announced.
struct Seen {
	QByteArray method, uri, path, query, fragment, version, content; Hdrs headers;
	bool nullTerminated;
	Seen() : nullTerminated(true) {}
	static Seen of(Pillow::HttpConnection* c);
};
// Compares what was seen with what was sent.
bool compareSeen(Ctx& c, const Seen& s, const Req& r, const QByteArray& where);

#endif
