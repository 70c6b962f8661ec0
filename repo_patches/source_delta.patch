From 4f354edc803686771a6aedd642a8c85e815ea2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/63] fix: keep the '?' of a request URI whose query string
 is empty

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..0468a4b 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -263,9 +263,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_path_len == 0 || _parser.request_path_len == _parser.request_uri_len)
 	{
-		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
+		// Nothing follows the path in the request uri, we can use the data straight because it means that inserting null after the path
 		// will not destroy the uri (which does not include the fragment).
 		setFromRawDataAndNullterm(_requestUri, data, _parser.request_uri_start, _parser.request_uri_len);
 	}
-- 
2.43.0


From a0841d5d90407ab32cbe734c8d6377ea2fe0145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 02/63] fix: accept a request head of exactly
 MaximumRequestHeaderLength bytes

---
 pillowcore/HttpConnection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 0468a4b..0de9ce1 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -173,7 +173,9 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (!_requestBuffer.isEmpty())
 			thin_http_parser_execute(&_parser, _requestBuffer.constData(), _requestBuffer.size(), _parser.nread);
 
-		if (_parser.nread > Pillow::HttpConnection::MaximumRequestHeaderLength || thin_http_parser_has_error(&_parser))
+		// Once the parser is finished, its nread counts one byte more than the headers.
+		const size_t headerLength = thin_http_parser_is_finished(&_parser) ? _parser.body_start : _parser.nread;
+		if (headerLength > Pillow::HttpConnection::MaximumRequestHeaderLength || thin_http_parser_has_error(&_parser))
 			return writeRequestErrorResponse(400); // Bad client Request!
 		else if (thin_http_parser_is_finished(&_parser))
 			transitionToReceivingContent();
-- 
2.43.0


From 2ea9a7008f89e824dff636a2c93ff7f2af943578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/63] fix: send a valid status line in place of an unknown
 status code

---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 0de9ce1..a7b2c01 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -458,7 +458,8 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCode = 500; // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 9f05b1b451ead5bbbd5481df311efec6ce247ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 04/63] fix: do not truncate a Content-Length beyond 2 GiB

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index a7b2c01..8c0f8cc 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -546,7 +546,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 903556221d692bdb172b6407cc65aa047cbf99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 05/63] fix: never send a negative Content-Length

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 8c0f8cc..feb786e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -479,7 +479,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
-- 
2.43.0


From bb9988fd1609e8e9492d6a07e110758749d72cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 06/63] fix: writeResponse() leaves the next request alone once
 its response is complete

---
 pillowcore/HttpConnection.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index feb786e..1ed2cc1 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -108,7 +108,7 @@ namespace Pillow
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
 		void transitionToSendingHeaders();
-		void transitionToSendingContent();
+		void transitionToSendingContent(const QByteArray& content);
 		void transitionToCompleted();
 		void flush();
 		void drain();
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -299,7 +299,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	emit q_ptr->requestReady(q_ptr);
 }
 
-inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
+inline void Pillow::HttpConnectionPrivate::transitionToSendingContent(const QByteArray& content)
 {
 	if (_state == Pillow::HttpConnection::SendingContent) return;
 	_state = Pillow::HttpConnection::SendingContent;
@@ -309,14 +309,17 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
 	else
 		_responseHeadersBuffer.data_ptr()->size = 0;
 
-	if (_responseContentLength == 0 || _requestMethod == headToken)
-		transitionToCompleted();
-
 	if (_responseContentLength < 0 && !_responseChunkedTransferEncoding)
 	{
 		// The response content length needs to be specified or chunked transfer encoding used to support keep-alive. Forcefully disable it.
 		_responseConnectionKeepAlive = false;
 	}
+
+	// NOTE: The connection may already be handling another request once the response has been completed.
+	if (_responseContentLength == 0 || _requestMethod == headToken)
+		transitionToCompleted();
+	else if (!content.isEmpty())
+		writeContent(content);
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
@@ -441,11 +444,10 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	writeHeaders(statusCode, headers, content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers, const QByteArray &content)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
@@ -552,7 +554,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
-	transitionToSendingContent();
+	transitionToSendingContent(content);
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From 28ce931fd7816cddc2adc87b7d1922a9dc036af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 07/63] fix: do not write to the shared null when a connection
 is initialized again

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 1ed2cc1..249debf 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -143,8 +143,8 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	_parser.http_field = &HttpConnectionPrivate::parser_http_field;
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
-	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	if (_requestBuffer.capacity() > Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.clear();
+	else if (!_requestBuffer.isEmpty()) _requestBuffer.data_ptr()->size = 0; // An empty buffer may be the shared null, which can not be written to.
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
-- 
2.43.0


From e19b8a9860e295f05a42045a2866dc5a292820a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 08/63] fix: stop completing a request when the connection gets
 closed meanwhile

---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 249debf..5b127f5 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -331,6 +331,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // The connection was closed while notifying.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -349,6 +350,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // Flushing found out that the client is gone.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From 0b2aed843615038e11635a089ac0b8c3db9b5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 09/63] fix: bound the nesting of pipelined requests that are
 answered right away

---
 pillowcore/HttpConnection.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 5b127f5..5b68ad3 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -101,6 +101,10 @@ namespace Pillow
 		bool _responseConnectionKeepAlive;
 		bool _responseChunkedTransferEncoding;
 
+		// Pipelined requests that are answered right away nest: bound how deep, the rest is processed from the event loop.
+		enum { MaximumNestedRequests = 100 };
+		int _nestedRequests;
+
 	public:
 		void initialize();
 		void processInput();
@@ -129,7 +133,7 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _nestedRequests(0)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -352,7 +356,8 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
 		if (_state != Pillow::HttpConnection::Completed) return; // Flushing found out that the client is gone.
 		transitionToReceivingHeaders();
-		processInput();
+		if (++_nestedRequests < MaximumNestedRequests) processInput();
+		else QTimer::singleShot(0, q_ptr, SLOT(processInput()));
 	}
 	else
 	{
@@ -678,6 +683,7 @@ QIODevice *Pillow::HttpConnection::outputDevice() const
 
 void Pillow::HttpConnection::processInput()
 {
+	d_ptr->_nestedRequests = 0;
 	d_ptr->processInput();
 }
 
-- 
2.43.0


From 61fe7eec8ceeb9b49adb2d16b1fdb2835f033bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 10/63] fix: do not serve files from directories whose name
 starts like the public path

---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..18774b8 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -284,7 +284,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : QString(_publicPath + '/')))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From 0da9f04db979eb3dfa09175d55d70cb65e9074a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 11/63] fix: do not send the content of a large file after the
 response to HEAD

---
 pillowcore/HttpHandler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 18774b8..f374716 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -325,8 +325,15 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
+			const bool headersOnly = connection->requestMethod() == "HEAD"; // The response is complete right after its headers.
 			connection->writeHeaders(200, headers);
 
+			if (headersOnly)
+			{
+				delete file;
+				return true;
+			}
+
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
 			//transfer->setParent(this);
-- 
2.43.0


From 9b8ed14bc5caa65cfe4b2b0888a5246274373e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 12/63] fix: give route parameters their own text when a splat
 precedes a named parameter

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 29 +++++++-------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..67ead79 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -192,32 +192,17 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 {
 	QString path = p;
 
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// The names are collected in the order in which the parameters appear in the path, as the expression captures them.
+	QRegExp paramRegex("([:*])(\\w+)"); QString paramReplacement("([\\w_-]+)"), splatReplacement("(.*)");
 	QStringList paramNames;
 	int pos = 0;
-	while (pos >= 0)
+	while ((pos = paramRegex.indexIn(path, pos)) >= 0)
 	{
-		pos = paramRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
-		}
-	}
-	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
-	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
+		paramNames << paramRegex.cap(2);
+		const QString& replacement = paramRegex.cap(1) == ":" ? paramReplacement : splatReplacement;
+		path.replace(pos, paramRegex.matchedLength(), replacement);
+		pos += replacement.size();
 	}
-	path.replace(splatRegex, splatReplacement);
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From 82c437eed0f4394a1cc05dee0806a249013c356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 13/63] fix: route to invokable methods given by their
 signature

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 67ead79..9960d09 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -143,7 +143,7 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray& method, const QString&
 		member++;
 	}
 	int methodIndex = object->metaObject()->indexOfSlot(member);
-	if (methodIndex == -1) object->metaObject()->indexOfMethod(member);
+	if (methodIndex == -1) methodIndex = object->metaObject()->indexOfMethod(member);
 
 	if (methodIndex == -1)
 	{
-- 
2.43.0


From 1605852197e3affad5c1f62e2890a50734467ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 14/63] fix: log request URIs that contain place markers such
 as '%1' unaltered

---
 pillowcore/HttpHandler.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index f374716..ef0b183 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -156,9 +156,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	else if (_mode == TraceRequests)
 	{
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
 
 		log(logEntry);
 	}
@@ -175,11 +175,11 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
@@ -194,11 +194,11 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
-- 
2.43.0


From 23cceb9e7be8753d1b3509d55b5a78111adbf38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 15/63] fix: do not report the status code of an earlier
 response before the response is sent

---
 pillowcore/HttpConnection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 5b68ad3..fac3ae8 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -296,6 +296,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	setFromRawData(_requestContent, _requestBuffer.constData(), static_cast<int>(_parser.body_start), _requestContentLength);
 
 	// Reset our known information about the response.
+	_responseStatusCode = 0;       // No response sent yet.
 	_responseContentLength = -1;   // The response content-length is initially unknown.
 	_responseContentBytesSent = 0; // No content bytes transfered yet.
 	_responseConnectionKeepAlive = true;
-- 
2.43.0


From 87e00d023fe29ccc45c5ff0e22271905b5026fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 16/63] fix: log the close of a connection with its own last
 request

---
 pillowcore/HttpHandler.cpp | 9 ++++++---
 pillowcore/HttpHandler.h   | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index ef0b183..1df68b6 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -148,6 +148,7 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 		connect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 	}
 	timer->start();
+	_requestLineMap[connection] = QString("%1 %2 %3").arg(QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
 
 	if (_mode == LogCompletedRequests)
 	{
@@ -188,15 +189,16 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 void HttpHandlerLog::requestClosed(HttpConnection *connection)
 {
 	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer && _mode == TraceRequests)
+	const QString requestLine = _requestLineMap.take(connection); // The connection itself does not hold on to a completed request.
+	if (timer && !requestLine.isEmpty() && _mode == TraceRequests)
 	{
-		const char* formatString = "[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
+		const char* formatString = "[CLOSE] %1 - - [%2] \"%3\" %4 %5 %6";
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(),
 					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 requestLine,
 					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
 					 QString::number(elapsed / 1000.0, 'f', 3));
 
@@ -209,6 +211,7 @@ void HttpHandlerLog::requestDestroyed(QObject *r)
 	HttpConnection* connection = static_cast<HttpConnection*>(r);
 	delete _requestTimerMap.value(connection, NULL);
 	_requestTimerMap.remove(connection);
+	_requestLineMap.remove(connection);
 }
 
 void HttpHandlerLog::log(const QString &entry)
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 5f26961..d41fe72 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -164,6 +164,7 @@ namespace Pillow
 
 	private:
 		QHash<Pillow::HttpConnection*, QElapsedTimer*> _requestTimerMap;
+		QHash<Pillow::HttpConnection*, QString> _requestLineMap; // "METHOD URI VERSION" of the last request of each open connection.
 		Mode _mode;
 		QPointer<QIODevice> _device;
 	};
-- 
2.43.0


From cec647f2c8d2792b24bb558dba97309bd54336f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 17/63] fix: append a header collection to itself without
 writing beyond its end

---
 pillowcore/HttpHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..f8ea3b6 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -52,12 +52,13 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
-	int oldSize = size();
-	resize(size() + l.size());
+	const int oldSize = size();
+	const int addedSize = l.size(); // Noted before resizing: "l" may be this very collection.
+	resize(oldSize + addedSize);
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
 	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *srcE = src + addedSize;
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0


From 4863b79d7c45233efdfc472ce1fb9beea9802299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 18/63] fix: format the smallest number of a signed type

---
 pillowcore/ByteArrayHelpers.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index f73f237..27021af 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -115,8 +115,13 @@ namespace Pillow
 		{
 			static const char intToChar[16] = { '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f' };
 			int start = target.size();
-			Integer n = number; if (n < 0) n = -n;
-			do { if (Base <= 10) target.append(char(n % Base) + '0'); else target.append(intToChar[n % Base]); } while ((n /= Base) > 0);
+			Integer n = number;
+			do
+			{
+				// Negate the digits of negative numbers, as negating the smallest number itself would overflow.
+				int digit = static_cast<int>(n % Base); if (digit < 0) digit = -digit;
+				if (Base <= 10) target.append(char(digit + '0')); else target.append(intToChar[digit]);
+			} while ((n /= Base) != 0);
 			if (number < 0) target.append('-');
 
 			// Reverse the string we've just output
-- 
2.43.0


From dd0f7c162e5bd42b605ab48996aac3ec845ad2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 19/63] fix: leave nothing of an incomplete header or a trailer
 in the next response's headers

---
 pillowcore/HttpClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..9c5559d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -241,6 +241,9 @@ void Pillow::HttpResponseParser::clear()
 	http_parser_init(&parser, HTTP_RESPONSE);
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
+	_lastWasValue = false;
 
 	if (_parsing) pause(); // clear() got called from a callback. gracefully recover by pausing the parser.
 }
@@ -255,6 +258,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
 	_lastWasValue = false;
 }
 
-- 
2.43.0


From 04acc88d0640a08ce38e1aabe496c51546d0ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 20/63] fix: do not drop the last trailer of a chunked response

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 9c5559d..0331398 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -322,6 +322,7 @@ int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *
 int Pillow::HttpResponseParser::parser_on_message_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
+	self->pushHeader(); // The last trailer of a chunked message, if any.
 	self->messageComplete();
 
 	// Pause the parser to avoid parsing the next message (if there is another one in the buffer).
-- 
2.43.0


From 2d6ac5c2fdaef79e282e69d0620b1e69efbec0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 21/63] fix: do not take an empty piece of data for the end of
 the stream

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0331398..29ade38 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -213,6 +213,7 @@ int Pillow::HttpResponseParser::inject(const char *data, int length)
 		qWarning() << "Pillow::HttpResponseParser::inject: called while parser is parsing. Not proceeding.";
 		return 0;
 	}
+	if (length <= 0) return 0; // http_parser_execute would take it for EOF. See injectEof().
 
 	_parsing = true;
 	size_t consumed = http_parser_execute(&parser, &parser_settings, data, length);
-- 
2.43.0


From 719a14542f878d48dc282ad18e6fa66bd88e3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 22/63] fix: do not drop the content of a response that offers
 a protocol upgrade

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 29ade38..b6303e6 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -309,6 +309,7 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
+	if (parser->status_code != 101) parser->upgrade = 0; // Other responses only offer an upgrade and still have their content.
 	self->headersComplete();
 	return 0;
 }
-- 
2.43.0


From 39e22a75432668efd28f9a2419fd39188d589ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 23/63] fix: do not wait for the content of responses that
 never have any

---
 pillowcore/HttpClient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b6303e6..37570df 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -311,7 +311,10 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 	self->pushHeader();
 	if (parser->status_code != 101) parser->upgrade = 0; // Other responses only offer an upgrade and still have their content.
 	self->headersComplete();
-	return 0;
+
+	// The 1xx, 204 and 304 responses never have content, whatever length their headers announce.
+	const bool hasNoContent = parser->status_code / 100 == 1 || parser->status_code == 204 || parser->status_code == 304;
+	return hasNoContent ? 1 : 0;
 }
 
 int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *at, size_t length)
-- 
2.43.0


From 04229640076dcbe8851b08b97dc168c3bc59b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 24/63] fix: request '/' when the URL has no path

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 37570df..67f1d23 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -665,6 +665,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/');
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From ba66d9757bcf6545543b8cf1daff27567d867fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 25/63] fix: keep the '?' of a URL with an empty query in
 requests

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 67f1d23..325b895 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -667,7 +667,7 @@ void Pillow::HttpClient::sendRequest()
 	QByteArray uri = _request.url.encodedPath();
 	if (uri.isEmpty()) uri.append('/');
 	const QByteArray query = _request.url.encodedQuery();
-	if (!query.isEmpty()) uri.append('?').append(query);
+	if (_request.url.hasQuery()) uri.append('?').append(query);
 
 	Pillow::HttpHeaderCollection headers;
 	headers.reserve(_request.headers.size() + 1);
-- 
2.43.0


From 98c67529379aca9f602b8c1d56b954b0b2bcf931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 26/63] fix: put IPv6 addresses between brackets in the Host
 header

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 325b895..0ef574e 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -657,6 +657,8 @@ void Pillow::HttpClient::sendRequest()
 	if (_hostHeaderValue.isEmpty())
 	{
         _hostHeaderValue = _request.url.encodedHost();
+		if (_hostHeaderValue.contains(':'))
+			_hostHeaderValue.prepend('[').append(']'); // An IPv6 address.
 		if (_request.url.port(80) != 80)
 		{
 			_hostHeaderValue.append(':');
-- 
2.43.0


From 70beead0aca762f9c8dadc3bae2a47764cc06356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 27/63] fix: skip any number of interim responses received at
 once

---
 pillowcore/HttpClient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0ef574e..79aba44 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -610,8 +610,13 @@ void Pillow::HttpClient::device_readyRead()
 			if (consumed < _buffer.size())
 			{
 				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
-				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+				// It was a 100 Continue (or more than one) since we are still response pending.
+				int lastConsumed = consumed;
+				while (responsePending() && !hasError() && consumed < _buffer.size() && lastConsumed > 0)
+				{
+					lastConsumed = inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+					consumed += lastConsumed;
+				}
 
 				if (consumed < _buffer.size())
 				{
-- 
2.43.0


From da05ebe2dda1de860fd7e8b5f70f674fe0d18d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 28/63] fix: do not go on with a response aborted from
 headersCompleted()

---
 pillowcore/HttpClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 79aba44..6f76464 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -698,6 +698,9 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
+	if (!_responsePending)
+		return; // Got aborted by a receiver of the signal.
+
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
 		pause();
-- 
2.43.0


From 6eef2474d78cf876c5caff81dbc0b6166d019781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 29/63] fix: follow relative redirection locations

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 6f76464..5552536 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -535,7 +535,7 @@ void Pillow::HttpClient::followRedirection()
 	}
 
 	Pillow::HttpClientRequest newRequest = _request;
-	newRequest.url = QUrl::fromEncoded(redirectionLocation());
+	newRequest.url = _request.url.resolved(QUrl::fromEncoded(redirectionLocation()));
 	request(newRequest);
 }
 
-- 
2.43.0


From 12d996443c0bf422318900f4ca1a95b923ddcca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 30/63] fix: break the previous connection before connecting
 for a new request

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 5552536..bc03d9d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -508,7 +508,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
             _hostHeaderValue.clear();
 
 		if (_device->state() != QAbstractSocket::UnconnectedState)
-			_device->disconnectFromHost();
+			_device->abort(); // Nothing more is expected from it. A graceful close could go on while there are bytes to write.
 		_device->connectToHost(_request.url.host(), _request.url.port(80));
 	}
 }
-- 
2.43.0


From adbffcd2104b8bdb32de633b64e9fe86b3274d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 31/63] fix: read all that fits in a limited read buffer

---
 pillowcore/HttpClient.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index bc03d9d..9c1b4f7 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -569,6 +569,9 @@ void Pillow::HttpClient::device_connected()
 
 void Pillow::HttpClient::device_readyRead()
 {
+	qint64 bytesAvailable = _device->bytesAvailable();
+	if (bytesAvailable == 0) return;
+
 	if (!responsePending())
 	{
 		// Not supposed to be receiving data at this point. Just
@@ -577,9 +580,6 @@ void Pillow::HttpClient::device_readyRead()
 		return;
 	}
 
-	qint64 bytesAvailable = _device->bytesAvailable();
-	if (bytesAvailable == 0) return;
-
 	if (_buffer.capacity() < _buffer.size() + bytesAvailable)
 		_buffer.reserve(_buffer.size() + bytesAvailable);
 
@@ -652,7 +652,12 @@ void Pillow::HttpClient::device_readyRead()
 		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
 		request(r);
 	}
-
+	else if (bufferSize > 0 && responsePending() && bytesRead > 0 && _device->bytesAvailable() > 0)
+	{
+		// The limited size did not allow to read everything, but not all of what
+		// was read ended up in the content. There may be some room left.
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
+	}
 }
 
 void Pillow::HttpClient::sendRequest()
-- 
2.43.0


From 9a131e15f555a493ef110e97b61037d535791db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 32/63] fix: complete responses that end with the connection

---
 pillowcore/HttpClient.cpp | 70 ++++++++++++++++++++++++++-------------
 pillowcore/HttpClient.h   |  2 ++
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 9c1b4f7..7f7fbb2 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -548,6 +548,19 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	if (error == QAbstractSocket::RemoteHostClosedError)
+	{
+		// All that was received before the connection got closed is still good,
+		// and the close may be what completes the response.
+		receive(_device->bytesAvailable());
+		if (_responsePending) HttpResponseParser::injectEof();
+		if (!_responsePending)
+		{
+			sendPendingRequest();
+			return;
+		}
+	}
+
 	switch (error)
 	{
 	case QAbstractSocket::RemoteHostClosedError:
@@ -569,7 +582,7 @@ void Pillow::HttpClient::device_connected()
 
 void Pillow::HttpClient::device_readyRead()
 {
-	qint64 bytesAvailable = _device->bytesAvailable();
+	const qint64 bytesAvailable = _device->bytesAvailable();
 	if (bytesAvailable == 0) return;
 
 	if (!responsePending())
@@ -580,20 +593,35 @@ void Pillow::HttpClient::device_readyRead()
 		return;
 	}
 
-	if (_buffer.capacity() < _buffer.size() + bytesAvailable)
-		_buffer.reserve(_buffer.size() + bytesAvailable);
+	const qint64 bufferSize = readBufferSize();
+	const qint64 bytesRead = receive(bufferSize > 0 ? qMin(bytesAvailable, bufferSize - _content.size()) : bytesAvailable);
 
-	qint64 bufferSize = readBufferSize();
-	if (bufferSize > 0)
-		bytesAvailable = bufferSize - _content.size();
+	// Response completed or got aborted in a callback.
+	if (!responsePending())
+	{
+		// We may have gotten a new request while in callback.
+		sendPendingRequest();
+	}
+	else if (bufferSize > 0 && bytesRead > 0 && _device->bytesAvailable() > 0)
+	{
+		// The limited size did not allow to read everything, but not all of what
+		// was read ended up in the content. There may be some room left.
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
+	}
+}
 
-	if (bytesAvailable <= 0)
+qint64 Pillow::HttpClient::receive(qint64 maxSize)
+{
+	if (maxSize <= 0)
 	{
 		// Nothing to read or no space in buffers. Wait for more data or more space in buffers.
-		return;
+		return 0;
 	}
 
-	qint64 bytesRead = _device->read(_buffer.data() + _buffer.size(), bytesAvailable);
+	if (_buffer.capacity() < _buffer.size() + maxSize)
+		_buffer.reserve(_buffer.size() + maxSize);
+
+	const qint64 bytesRead = _device->read(_buffer.data() + _buffer.size(), maxSize);
 	_buffer.data_ptr()->size += bytesRead;
 
 	int consumed = inject(_buffer);
@@ -644,20 +672,16 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
-	// Response completed or got aborted in a callback.
-	if (!responsePending() && !_pendingRequest.method.isNull())
-	{
-		// Plus we got a new request while in callback.
-		Pillow::HttpClientRequest r = _pendingRequest;
-		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
-		request(r);
-	}
-	else if (bufferSize > 0 && responsePending() && bytesRead > 0 && _device->bytesAvailable() > 0)
-	{
-		// The limited size did not allow to read everything, but not all of what
-		// was read ended up in the content. There may be some room left.
-		QTimer::singleShot(0, this, SLOT(device_readyRead()));
-	}
+	return bytesRead;
+}
+
+void Pillow::HttpClient::sendPendingRequest()
+{
+	if (_pendingRequest.method.isNull()) return;
+
+	Pillow::HttpClientRequest r = _pendingRequest;
+	_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
+	request(r);
 }
 
 void Pillow::HttpClient::sendRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..22ce233 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -230,6 +230,8 @@ namespace Pillow
 
 	private:
 		void sendRequest();
+		void sendPendingRequest();
+		qint64 receive(qint64 maxSize); // Read up to maxSize bytes from the device and process them. Returns the number of bytes read.
 
 	protected:
 		void messageBegin();
-- 
2.43.0


From aa6b9dd78648e71d3196a729daad7a94bc4d1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 33/63] fix: keep track of requests made from within finished()

---
 pillowcore/HttpClient.cpp | 61 ++++++++++++++++++++++-----------------
 pillowcore/HttpClient.h   |  3 +-
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 7f7fbb2..851375a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -352,7 +352,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _handlingDeviceError(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -384,7 +384,7 @@ void Pillow::HttpClient::setReadBufferSize(qint64 size)
 
 bool Pillow::HttpClient::responsePending() const
 {
-	return _responsePending;
+	return _responsePending || !_pendingRequest.method.isNull();
 }
 
 Pillow::HttpClient::Error Pillow::HttpClient::error() const
@@ -466,17 +466,18 @@ void Pillow::HttpClient::request(const QByteArray &method, const QUrl &url, cons
 
 void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 {
-	if (_responsePending)
+	if (responsePending())
 	{
 		qWarning("Pillow::HttpClient::request: cannot send new request while another one is under way. Request pipelining is not supported.");
 		return;
 	}
 
-	if (Pillow::HttpResponseParser::isParsing())
+	if (Pillow::HttpResponseParser::isParsing() || _handlingDeviceError)
 	{
 		// We most likely got cancelled in a callback or got asked for a new request
-		// in the messageComplete() callback. So we are not responsePending but still parsing.
-		// Keep the request for after we come out of parsing.
+		// in the messageComplete() callback. So we are not waiting for a response but still parsing,
+		// or the device still has to finish closing after its error.
+		// Keep the request for after we come out of parsing or out of the device's error handling.
 		_pendingRequest = request;
 		return;
 	}
@@ -517,11 +518,13 @@ void Pillow::HttpClient::abort()
 {
 	if (_device) _device->abort();
 
-	if (_responsePending)
+	if (responsePending())
 	{
+		if (!_responsePending) clear(); // The request was not even sent yet, so the current response is of an earlier one.
 		Pillow::HttpResponseParser::pause();
 		_error = AbortedError;
 		_responsePending = false;
+		_pendingRequest = Pillow::HttpClientRequest();
 		emit finished();
 	}
 }
@@ -548,31 +551,37 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	_handlingDeviceError = true;
+
 	if (error == QAbstractSocket::RemoteHostClosedError)
 	{
 		// All that was received before the connection got closed is still good,
 		// and the close may be what completes the response.
 		receive(_device->bytesAvailable());
 		if (_responsePending) HttpResponseParser::injectEof();
-		if (!_responsePending)
-		{
-			sendPendingRequest();
-			return;
-		}
 	}
 
-	switch (error)
+	if (_responsePending)
 	{
-	case QAbstractSocket::RemoteHostClosedError:
-		_error = RemoteHostClosedError;
-		break;
-	default:
-		_error = NetworkError;
+		switch (error)
+		{
+		case QAbstractSocket::RemoteHostClosedError:
+			_error = RemoteHostClosedError;
+			break;
+		default:
+			_error = NetworkError;
+		}
+
+		_device->close();
+		_responsePending = false;
+		emit finished();
 	}
 
-	_device->close();
-	_responsePending = false;
-	emit finished();
+	_handlingDeviceError = false;
+
+	// The device finishes closing after it returns from emitting its error, so it can't be connected again before that.
+	if (!_pendingRequest.method.isNull())
+		QTimer::singleShot(0, this, SLOT(sendPendingRequest()));
 }
 
 void Pillow::HttpClient::device_connected()
@@ -585,7 +594,7 @@ void Pillow::HttpClient::device_readyRead()
 	const qint64 bytesAvailable = _device->bytesAvailable();
 	if (bytesAvailable == 0) return;
 
-	if (!responsePending())
+	if (!_responsePending)
 	{
 		// Not supposed to be receiving data at this point. Just
 		// ignore it and close the connection.
@@ -597,7 +606,7 @@ void Pillow::HttpClient::device_readyRead()
 	const qint64 bytesRead = receive(bufferSize > 0 ? qMin(bytesAvailable, bufferSize - _content.size()) : bytesAvailable);
 
 	// Response completed or got aborted in a callback.
-	if (!responsePending())
+	if (!_responsePending)
 	{
 		// We may have gotten a new request while in callback.
 		sendPendingRequest();
@@ -626,7 +635,7 @@ qint64 Pillow::HttpClient::receive(qint64 maxSize)
 
 	int consumed = inject(_buffer);
 
-	if (responsePending())
+	if (_responsePending)
 	{
 		// Response is still pending. One of the following:
 		// 1. Got a parser error. (where hasError)
@@ -640,7 +649,7 @@ qint64 Pillow::HttpClient::receive(qint64 maxSize)
 				// We had multiple responses in the buffer?
 				// It was a 100 Continue (or more than one) since we are still response pending.
 				int lastConsumed = consumed;
-				while (responsePending() && !hasError() && consumed < _buffer.size() && lastConsumed > 0)
+				while (_responsePending && !hasError() && consumed < _buffer.size() && lastConsumed > 0)
 				{
 					lastConsumed = inject(_buffer.constData() + consumed, _buffer.size() - consumed);
 					consumed += lastConsumed;
@@ -686,7 +695,7 @@ void Pillow::HttpClient::sendPendingRequest()
 
 void Pillow::HttpClient::sendRequest()
 {
-	if (!responsePending()) return;
+	if (!_responsePending) return;
 
 	if (_hostHeaderValue.isEmpty())
 	{
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index 22ce233..757a81b 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -227,10 +227,10 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void sendPendingRequest();
 
 	private:
 		void sendRequest();
-		void sendPendingRequest();
 		qint64 receive(qint64 maxSize); // Read up to maxSize bytes from the device and process them. Returns the number of bytes read.
 
 	protected:
@@ -246,6 +246,7 @@ namespace Pillow
 		Pillow::HttpRequestWriter _requestWriter;
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
+		bool _handlingDeviceError;
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 0bdb45436144f53fe33d56ad578915e70cfe7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 34/63] fix: do not decode a response with the decoder of an
 earlier one

---
 pillowcore/HttpClient.cpp | 11 ++++++++++-
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 851375a..0fffce8 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -362,6 +362,11 @@ Pillow::HttpClient::HttpClient(QObject *parent)
 	_keepAliveTimeoutTimer.invalidate();
 }
 
+Pillow::HttpClient::~HttpClient()
+{
+	delete _contentDecoder;
+}
+
 int Pillow::HttpClient::keepAliveTimeout() const
 {
 	return _keepAliveTimeout;
@@ -725,6 +730,10 @@ void Pillow::HttpClient::sendRequest()
 
 void Pillow::HttpClient::messageBegin()
 {
+	// The previous response may have ended without completing.
+	delete _contentDecoder;
+	_contentDecoder = 0;
+
 	Pillow::HttpResponseParser::messageBegin();
 }
 
@@ -752,7 +761,7 @@ void Pillow::HttpClient::headersComplete()
 			const Pillow::HttpHeader& header = _headers.at(i);
 			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("content-encoding")))
 			{
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
+				if (_contentDecoder == 0 && Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
 					_contentDecoder = new Pillow::GunzipContentTransformer();
 			}
 		}
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index 757a81b..86dada6 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -174,6 +174,7 @@ namespace Pillow
 
 	public:
 		HttpClient(QObject* parent = 0);
+		~HttpClient();
 
 		// keepAliveTimeout: Maximum time, in milliseconds, for which the client will keep an established connection channel
 		//                   between requests to the same host. Use 0 to disable keep-alive.
-- 
2.43.0


From 5778084a3ca93ce95430b0a328ddb930e148f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 35/63] fix: get all of the inflated data out of gzip responses

---
 pillowcore/HttpClient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0fffce8..b3b5342 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -65,7 +65,9 @@ namespace Pillow
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
-				if (_streamBad || inflate(&_inflateStream, Z_NO_FLUSH) < 0) // Less than 0 is error.
+				const int result = _streamBad ? Z_DATA_ERROR : inflate(&_inflateStream, Z_NO_FLUSH);
+				if (result == Z_BUF_ERROR) break; // Needs more input to go on.
+				if (result < 0) // Less than 0 is error.
 				{
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
 					_streamBad = true;
@@ -74,7 +76,7 @@ namespace Pillow
 
 				_inflatedBuffer.append(reinterpret_cast<const char*>(buffer), sizeof(buffer) - _inflateStream.avail_out);
 			}
-			while (_inflateStream.avail_in > 0 && _inflateStream.avail_out == 0);
+			while (_inflateStream.avail_out == 0); // There can be more output even though the input is used up.
 
 			if (_streamBad)
 			{
-- 
2.43.0


From 5dc549e7d3ae73e0f9a4f0f0b0d5c7e2190099b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 36/63] fix: inflate all members of gzip responses

---
 pillowcore/HttpClient.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b3b5342..b0ce256 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -38,7 +38,7 @@ namespace Pillow
 	class GunzipContentTransformer : public ContentTransformer
 	{
 	public:
-		GunzipContentTransformer(): _streamBad(false)
+		GunzipContentTransformer(): _streamBad(false), _memberEnded(false), _firstMember(true), _trailingData(false)
 		{
 			memset(&_inflateStream, 0, sizeof(z_stream));
 			inflateInit2(&_inflateStream, 31);
@@ -62,11 +62,25 @@ namespace Pillow
 
 			do
 			{
+				if (_memberEnded)
+				{
+					// The content can be made of many gzip members, one after another.
+					if (_inflateStream.avail_in == 0) break;
+					inflateReset(&_inflateStream);
+					_memberEnded = false;
+					_firstMember = false;
+				}
+
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
 				const int result = _streamBad ? Z_DATA_ERROR : inflate(&_inflateStream, Z_NO_FLUSH);
 				if (result == Z_BUF_ERROR) break; // Needs more input to go on.
+				if (_trailingData || (result < 0 && !_streamBad && !_firstMember && _inflateStream.total_out == 0))
+				{
+					_trailingData = true; // What follows the last member is not gzip data. Ignore it.
+					break;
+				}
 				if (result < 0) // Less than 0 is error.
 				{
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
@@ -75,8 +89,9 @@ namespace Pillow
 				}
 
 				_inflatedBuffer.append(reinterpret_cast<const char*>(buffer), sizeof(buffer) - _inflateStream.avail_out);
+				if (result == Z_STREAM_END) _memberEnded = true;
 			}
-			while (_inflateStream.avail_out == 0); // There can be more output even though the input is used up.
+			while (_memberEnded || _inflateStream.avail_out == 0); // There can be more output even though the input is used up.
 
 			if (_streamBad)
 			{
@@ -94,6 +109,9 @@ namespace Pillow
 		z_stream _inflateStream;
 		QByteArray _inflatedBuffer;
 		bool _streamBad;
+		bool _memberEnded;
+		bool _firstMember;
+		bool _trailingData;
 	};
 #endif // PILLOW_ZLIB
 }
-- 
2.43.0


From 020c5a9d9037d393e620d752e63e5349a46a0669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 37/63] fix: pass all of the content that is not gzip through

---
 pillowcore/HttpClient.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b0ce256..cb33f57 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -32,13 +32,14 @@ namespace Pillow
 	public:
 		virtual ~ContentTransformer() {}
 		virtual QByteArray transform(const char *data, int length) = 0;
+		virtual QByteArray finish() = 0; // What remains to be output at the end of the content.
 	};
 
 #ifdef PILLOW_ZLIB
 	class GunzipContentTransformer : public ContentTransformer
 	{
 	public:
-		GunzipContentTransformer(): _streamBad(false), _memberEnded(false), _firstMember(true), _trailingData(false)
+		GunzipContentTransformer(): _streamBad(false), _started(false), _memberEnded(false), _firstMember(true), _trailingData(false)
 		{
 			memset(&_inflateStream, 0, sizeof(z_stream));
 			inflateInit2(&_inflateStream, 31);
@@ -57,6 +58,9 @@ namespace Pillow
             else
                 _inflatedBuffer.clear();
 
+			if (!_started && !_streamBad)
+				_undecoded.append(data, length);
+
 			_inflateStream.next_in = const_cast<unsigned char*>(reinterpret_cast<const unsigned char*>(data));
 			_inflateStream.avail_in = length;
 
@@ -90,6 +94,11 @@ namespace Pillow
 
 				_inflatedBuffer.append(reinterpret_cast<const char*>(buffer), sizeof(buffer) - _inflateStream.avail_out);
 				if (result == Z_STREAM_END) _memberEnded = true;
+				if (_memberEnded || _inflatedBuffer.size() > 0)
+				{
+					_started = true;
+					_undecoded.clear();
+				}
 			}
 			while (_memberEnded || _inflateStream.avail_out == 0); // There can be more output even though the input is used up.
 
@@ -99,16 +108,29 @@ namespace Pillow
                     _inflatedBuffer.data_ptr()->size = 0;
                 else
                     _inflatedBuffer.clear();
-                _inflatedBuffer.append(data, length);
+				if (!_undecoded.isEmpty())
+					_inflatedBuffer.append(_undecoded); // Includes the current data.
+				else
+					_inflatedBuffer.append(data, length);
+				_undecoded.clear();
 			}
 
 			return _inflatedBuffer;
 		}
 
+		QByteArray finish()
+		{
+			const QByteArray undecoded = _undecoded;
+			_undecoded.clear();
+			return undecoded;
+		}
+
 	private:
 		z_stream _inflateStream;
 		QByteArray _inflatedBuffer;
 		bool _streamBad;
+		QByteArray _undecoded; // The data received before any could be decoded, to be able to pass it through.
+		bool _started;         // Whether some data got decoded.
 		bool _memberEnded;
 		bool _firstMember;
 		bool _trailingData;
@@ -805,6 +827,17 @@ void Pillow::HttpClient::messageContent(const char *data, int length)
 
 void Pillow::HttpClient::messageComplete()
 {
+	if (_contentDecoder)
+	{
+		const QByteArray remaining = _contentDecoder->finish();
+		if (!remaining.isEmpty())
+		{
+			Pillow::HttpResponseParser::messageContent(remaining.data(), remaining.length());
+			emit contentReadyRead();
+			if (!_responsePending) return; // Got aborted by a receiver of the signal.
+		}
+	}
+
 	delete _contentDecoder;
 	_contentDecoder = 0;
 
-- 
2.43.0


From 463edfbce5c803a7595f21de7015f42d9f3e0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 38/63] fix: set the error of failed network replies

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index cb33f57..334b7b6 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -968,6 +968,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, tr("Request failed"));
 				emit this->error(error);
 			}
 
-- 
2.43.0


From 786ab25bf3fa1068070fed6b67e4ce7bc985e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 39/63] fix: report repeated and empty headers in network
 replies

---
 pillowcore/HttpClient.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 334b7b6..e76c7dd 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -916,17 +916,20 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
+				const bool isSetCookie = Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie"));
 
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
+				// QNetworkReply presents repeated headers as a single one, and takes a null value for the removal of the header.
+				QByteArray value = header.second.isNull() ? QByteArray("") : header.second;
+				if (hasRawHeader(header.first))
+					value.prepend(rawHeader(header.first) + (isSetCookie ? "\n" : ", "));
+				setRawHeader(header.first, value);
+
+				if (isSetCookie)
 					cookies += QNetworkCookie::parseCookies(header.second);
 				else if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("location")))
 					setAttribute(QNetworkRequest::RedirectionTargetAttribute, QUrl::fromEncoded(header.second));
 			}
 
-			if (!cookies.isEmpty())
-				setHeader(QNetworkRequest::SetCookieHeader, QVariant::fromValue(cookies));
-
 			QNetworkAccessManager *nam = manager();
 			if (nam)
 			{
-- 
2.43.0


From e381d22d237c70cd9083db56188f4b5d063bb77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 40/63] fix: do not use the client of a network reply after its
 manager destroyed it

---
 pillowcore/HttpClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index e76c7dd..d28b64a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -9,6 +9,7 @@
 #include <QtNetwork/QNetworkCookie>
 #include <QtNetwork/QNetworkCookieJar>
 #include <QtCore/QTimer>
+#include <QtCore/QPointer>
 #include "private/zlib.h"
 
 namespace Pillow
@@ -991,7 +992,7 @@ namespace Pillow
 		}
 
 	private:
-		Pillow::HttpClient *_client;
+		QPointer<Pillow::HttpClient> _client;
 		QByteArray _content;
 		int _contentPos;
 	};
-- 
2.43.0


From 9d1c49d27a3316a29e8ccf940e939f4e54cd74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 41/63] fix: do not report the end of the content of an
 unfinished network reply

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index d28b64a..773af89 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -984,7 +984,7 @@ namespace Pillow
 	protected:
 		qint64 readData(char *data, qint64 maxSize)
 		{
-			if (_contentPos >= _content.size()) return -1;
+			if (_contentPos >= _content.size()) return isFinished() ? -1 : 0; // More may come until finished.
 			qint64 bytesRead = qMin(maxSize, static_cast<qint64>(_content.size() - _contentPos));
 			memcpy(data, _content.constData() + _contentPos, bytesRead);
 			_contentPos += bytesRead;
-- 
2.43.0


From d5ddbb33ba84fbff2066cb6839b866e8bc1d6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 42/63] fix: do not encode the path of proxied requests twice

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..62ab11b 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -30,8 +30,8 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 {
 	if (_proxiedUrl.isEmpty()) return false;
 
-	QUrl targetUrl = _proxiedUrl;
-	targetUrl.setEncodedPath(request->requestPath());
+	QUrl targetUrl = QUrl::fromEncoded(_proxiedUrl.toEncoded(QUrl::RemovePath | QUrl::RemoveQuery | QUrl::RemoveFragment) + request->requestPath());
+	if (_proxiedUrl.hasQuery()) targetUrl.setEncodedQuery(_proxiedUrl.encodedQuery());
 	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
-- 
2.43.0


From 5dba38f6203aec18d2b33cc7cd66b6015dcac690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 43/63] fix: use a HEAD operation for proxied HEAD requests

---
 pillowcore/HttpHandlerProxy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 62ab11b..702f1a3 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -53,7 +53,11 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+	QNetworkReply* proxiedReply;
+	if (request->requestMethod() == "HEAD" && requestContentBuffer == NULL)
+		proxiedReply = _networkAccessManager->head(proxiedRequest); // The manager would wait for the content of the response to a custom request.
+	else
+		proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From 132fb321058cf0d652247d23999fe93e8fba1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 44/63] fix: proxy a copy of the request content

---
 pillowcore/HttpHandlerProxy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 702f1a3..5cd673b 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -49,7 +49,8 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-		requestContentBuffer = new QBuffer(&(const_cast<QByteArray&>(request->requestContent())));
+		requestContentBuffer = new QBuffer();
+		requestContentBuffer->setData(request->requestContent().constData(), request->requestContent().size()); // Copy: the reply can outlive the request.
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-- 
2.43.0


From 4cbdcd134e7263b7b97651a5ae7e32d897fad498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 45/63] fix: relay all values of repeated request headers

---
 pillowcore/HttpHandlerProxy.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 5cd673b..8bda8c8 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -37,7 +37,13 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		const QByteArray name = header.first.toLower();
+		if (proxiedRequest.hasRawHeader(header.first) && name != "content-length" && name != "host")
+			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (name == "cookie" ? "; " : ", ") + header.second);
+		else
+			proxiedRequest.setRawHeader(header.first, header.second);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
-- 
2.43.0


From 237b34258aa86b3a0eb9d97acf649260dec5d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 46/63] fix: leave the cookies of proxied requests to the
 clients

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 8bda8c8..4fcea2c 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -45,6 +45,10 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 			proxiedRequest.setRawHeader(header.first, header.second);
 	}
 
+	// Cookies are between the client and the proxied server.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From 14b6d4cd08bf471cc413fbb8989959e5b1c9216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 47/63] fix: relay each proxied cookie as a header of its own

---
 pillowcore/HttpHandlerProxy.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 4fcea2c..5a47669 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -132,7 +132,16 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		if (headerList.at(i).first.toLower() == "set-cookie")
+		{
+			// The reply has merged repeated headers, one per line.
+			foreach (const QByteArray& cookie, headerList.at(i).second.split('\n'))
+				headers << Pillow::HttpHeader(headerList.at(i).first, cookie);
+		}
+		else
+			headers << headerList.at(i);
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From 696c4a87f9e2a7443e62c01d373df8c19485eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 48/63] fix: relay complete proxied error responses, end
 chunked ones, and break those cut short

---
 pillowcore/HttpHandlerProxy.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 5a47669..4dbed0d 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -156,17 +156,34 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 	if (!_broken) pump(_proxiedReply->readAll());
 }
 
+// Whether the reply is a full response of the proxied server, be it one with an error status.
+static bool isCompleteResponse(const QNetworkReply* reply)
+{
+	const int error = reply->error();
+	const int statusCode = reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt();
+
+	if (error == QNetworkReply::NoError) return true;
+	if (statusCode < 400) return false;
+	if (statusCode == 407) return error == QNetworkReply::ProxyAuthenticationRequiredError;
+	if (error == QNetworkReply::ProtocolInvalidOperationError) return true; // Used for status 400.
+	return (error >= QNetworkReply::ContentAccessDenied && error <= QNetworkReply::UnknownContentError && error != QNetworkReply::ContentReSendError)
+		|| error > QNetworkReply::ProtocolFailure; // Server errors.
+}
+
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
+	if (isCompleteResponse(_proxiedReply))
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
 		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
 		{
 			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
+			// indicate the end of the content stream.
+			if (_request->responseContentLength() < 0)
+				_request->endContent();
+			else
+				_request->close(); // There will not be as much content as was announced.
 		}
 	}
 	else
@@ -176,6 +193,11 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
 			_request->writeResponse(503);
 		}
+		else if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		{
+			// The rest of the content will not come. Breaking the connection is the only way left to tell the client.
+			_request->close();
+		}
 	}
 }
 
-- 
2.43.0


From 7b8d6561def3e6e0c6a9c3307a079a594ba1c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 49/63] fix: leave out the content of proxied HEAD requests

---
 pillowcore/HttpHandlerProxy.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 4dbed0d..f41037c 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -57,7 +57,9 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnection *request, QNetworkRequest proxiedRequest)
 {
 	QBuffer* requestContentBuffer = NULL;
-	if (request->requestContent().size() > 0)
+	if (request->requestMethod() == "HEAD")
+		proxiedRequest.setRawHeader("Content-Length", QByteArray()); // Content has no meaning there, and the manager does not send any.
+	else if (request->requestContent().size() > 0)
 	{
 		requestContentBuffer = new QBuffer();
 		requestContentBuffer->setData(request->requestContent().constData(), request->requestContent().size()); // Copy: the reply can outlive the request.
@@ -65,7 +67,7 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	}
 
 	QNetworkReply* proxiedReply;
-	if (request->requestMethod() == "HEAD" && requestContentBuffer == NULL)
+	if (request->requestMethod() == "HEAD")
 		proxiedReply = _networkAccessManager->head(proxiedRequest); // The manager would wait for the content of the response to a custom request.
 	else
 		proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
-- 
2.43.0


From d41e0387bbf56f93ae16870d99ff67d87df8d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 50/63] fix: ignore the Content-Length of chunked proxied
 responses

---
 pillowcore/HttpHandlerProxy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index f41037c..242f9e8 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -132,6 +132,7 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	// Headers have not been sent yet. Do so now.
 	int statusCode = _proxiedReply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt();
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
+	const bool chunked = _proxiedReply->rawHeader("Transfer-Encoding").toLower() == "chunked";
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
 	{
@@ -141,7 +142,7 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 			foreach (const QByteArray& cookie, headerList.at(i).second.split('\n'))
 				headers << Pillow::HttpHeader(headerList.at(i).first, cookie);
 		}
-		else
+		else if (!chunked || headerList.at(i).first.toLower() != "content-length") // It says nothing of the length of a chunked response.
 			headers << headerList.at(i);
 	}
 	_request->writeHeaders(statusCode, headers);
-- 
2.43.0


From 6591761adc326fd8baa87f70013ad4a423f5794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 51/63] fix: give the network manager copies of the headers and
 method of a request

---
 pillowcore/HttpHandlerProxy.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 242f9e8..0603e1f 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -38,11 +38,13 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 	{
-		const QByteArray name = header.first.toLower();
-		if (proxiedRequest.hasRawHeader(header.first) && name != "content-length" && name != "host")
-			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (name == "cookie" ? "; " : ", ") + header.second);
+		// Use copies: the header data does not outlive the request, while the network access manager keeps it longer.
+		const QByteArray field(header.first.constData(), header.first.size()), value(header.second.constData(), header.second.size());
+		const QByteArray name = field.toLower();
+		if (proxiedRequest.hasRawHeader(field) && name != "content-length" && name != "host")
+			proxiedRequest.setRawHeader(field, proxiedRequest.rawHeader(field) + (name == "cookie" ? "; " : ", ") + value);
 		else
-			proxiedRequest.setRawHeader(header.first, header.second);
+			proxiedRequest.setRawHeader(field, value);
 	}
 
 	// Cookies are between the client and the proxied server.
@@ -70,7 +72,7 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	if (request->requestMethod() == "HEAD")
 		proxiedReply = _networkAccessManager->head(proxiedRequest); // The manager would wait for the content of the response to a custom request.
 	else
-		proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+		proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, QByteArray(request->requestMethod().constData(), request->requestMethod().size()), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From f49c112c8bfd22725e15f709e55850beaad3f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 52/63] fix: do not let the network access manager decode
 proxied content

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 0603e1f..22eaac8 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -47,6 +47,10 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 			proxiedRequest.setRawHeader(field, value);
 	}
 
+	// Otherwise the network access manager asks for compressed content by itself, and decodes it.
+	if (proxiedRequest.rawHeader("Accept-Encoding").isEmpty())
+		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	// Cookies are between the client and the proxied server.
 	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
 	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
-- 
2.43.0


From 6a6719a79a5985927aeab16d5192918c7772f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 53/63] fix: wait for encrypted data to be sent before closing
 TLS connections

---
 pillowcore/HttpConnection.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index fac3ae8..a6f93b7 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -8,6 +8,9 @@
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QLocalSocket>
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+#include <QtNetwork/QSslSocket>
+#endif
 #include <QtCore/QVarLengthArray>
 
 //
@@ -381,7 +384,13 @@ inline void Pillow::HttpConnectionPrivate::drain()
 {
 	if (_state != Pillow::HttpConnection::Flushing) return;
 	flush();
-	if (_outputDevice != 0 && _outputDevice->bytesToWrite() == 0) transitionToClosed();
+	if (_outputDevice == 0 || _outputDevice->bytesToWrite() > 0) return;
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	// The data written to a TLS socket still has to be sent once it is encrypted.
+	if (QSslSocket* sslSocket = qobject_cast<QSslSocket*>(_outputDevice))
+		if (sslSocket->encryptedBytesToWrite() > 0) return;
+#endif
+	transitionToClosed();
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToFlushing()
@@ -393,7 +402,13 @@ inline void Pillow::HttpConnectionPrivate::transitionToFlushing()
 
 	drain(); // Will transition to closed also if there was no data at all to flush.
 	if (_state == Pillow::HttpConnection::Flushing) // A first flush was not enough. Schedule more flushes.
+	{
 		QObject::connect(_outputDevice, SIGNAL(bytesWritten(qint64)), q_ptr, SLOT(drain()));
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+		if (qobject_cast<QSslSocket*>(_outputDevice))
+			QObject::connect(_outputDevice, SIGNAL(encryptedBytesWritten(qint64)), q_ptr, SLOT(drain()));
+#endif
+	}
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToClosed()
-- 
2.43.0


From 651f8f5300a0c029413c79ecf9021dd7d6fd65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 54/63] fix: delete surplus pooled connections once control
 returns to the event loop

---
 pillowcore/HttpServer.cpp | 24 +++++++++++++++++++++++-
 pillowcore/HttpServer.h   |  2 ++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 395c2dc..f462bcb 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -18,6 +18,7 @@ namespace Pillow
 	public:
 		QObject* q_ptr;
 		QList<HttpConnection*> reservedConnections;
+		QList<HttpConnection*> surplusConnections; // Waiting to be deleted.
 
 	public:
 		HttpServerPrivate(QObject* server)
@@ -52,10 +53,21 @@ namespace Pillow
 		void putConnection(HttpConnection* connection)
 		{
 			while (reservedConnections.size() >= MaximumReserveCount)
-				delete reservedConnections.takeLast();
+			{
+				// The connection may still be within its handler or signals. Delete it from the event loop.
+				surplusConnections.append(reservedConnections.takeLast());
+				if (surplusConnections.size() == 1)
+					QMetaObject::invokeMethod(q_ptr, "deleteSurplusConnections", Qt::QueuedConnection);
+			}
 
 			reservedConnections.append(connection);
 		}
+
+		void deleteSurplusConnections()
+		{
+			while (!surplusConnections.isEmpty())
+				delete surplusConnections.takeLast();
+		}
 	};
 }
 
@@ -104,6 +116,11 @@ void HttpServer::connection_closed(Pillow::HttpConnection *connection)
 	d_ptr->putConnection(connection);
 }
 
+void HttpServer::deleteSurplusConnections()
+{
+	d_ptr->deleteSurplusConnections();
+}
+
 HttpConnection* Pillow::HttpServer::createHttpConnection()
 {
 	return d_ptr->takeConnection();
@@ -141,3 +158,8 @@ void HttpLocalServer::connection_closed(Pillow::HttpConnection *connection)
 	connection->inputDevice()->deleteLater();
 	d_ptr->putConnection(connection);
 }
+
+void HttpLocalServer::deleteSurplusConnections()
+{
+	d_ptr->deleteSurplusConnections();
+}
diff --git a/pillowcore/HttpServer.h b/pillowcore/HttpServer.h
index 3af7276..7264db3 100644
--- a/pillowcore/HttpServer.h
+++ b/pillowcore/HttpServer.h
@@ -32,6 +32,7 @@ namespace Pillow
 
 	private slots:
 		void connection_closed(Pillow::HttpConnection* request);
+		void deleteSurplusConnections();
 
 	protected:
 #if QT_VERSION < QT_VERSION_CHECK(5, 0, 0)
@@ -63,6 +64,7 @@ namespace Pillow
 	private slots:
 		void this_newConnection();
 		void connection_closed(Pillow::HttpConnection* request);
+		void deleteSurplusConnections();
 
 	public:
 		HttpLocalServer(QObject* parent = 0);
-- 
2.43.0


From 4343f088102609b073129fbaa9773e39b77db4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 55/63] fix: give script handlers the decoded query parameters

---
 pillowcore/HttpHandlerQtScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 2635367..4949e84 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -90,7 +90,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
 	requestObject.setProperty("requestContent", QUrl::fromPercentEncoding(connection->requestContent()));
 
-	QList<QPair<QString, QString> > queryParams = QUrl(connection->requestUri()).queryItems();
+	const Pillow::HttpParamCollection queryParams = connection->requestParams();
 	QScriptValue queryParamsObject = engine->newObject();
 	for (int i = 0, iE = queryParams.size(); i < iE; ++i)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
-- 
2.43.0


From 49fb7ed5a9058dbf41223b9b28325284fc8cf5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 56/63] fix: answer requests whose script function throws
 something other than an Error

---
 pillowcore/HttpHandlerQtScript.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 4949e84..3108b56 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -98,14 +98,15 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
 
-	if (result.isError())
+	if (result.isError() || engine->hasUncaughtException()) // Not only errors can be thrown.
 	{
+		const QString message = objectToString(result);
+		engine->clearExceptions(); // Before the response is written: the next request may be handled from there.
 		if (connection->state() == HttpConnection::SendingHeaders)
 		{
 			// Nothing was sent yet... We have a chance to let the client know we had an error.
-			connection->writeResponseString(500, HttpHeaderCollection(), objectToString(result));
+			connection->writeResponseString(500, HttpHeaderCollection(), message);
 		}
-		engine->clearExceptions();
 		return true;
 	}
 
-- 
2.43.0


From d00d7c92a6415a74b6a0d363a2f610c742297e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 57/63] fix: report scripts that throw something other than an
 Error while they are loaded

---
 pillowcore/HttpHandlerQtScript.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 3108b56..5b1d379 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -166,11 +166,14 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		context->setActivationObject(_scriptObject);
 		context->setThisObject(_scriptObject);
 		QScriptValue result = engine->evaluate(file.readAll(), _fileName);
+		const bool failed = result.isError() || engine->hasUncaughtException(); // Not only errors can be thrown.
 		engine->popContext();
 
-		if (result.isError())
+		if (failed)
 		{
-			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(objectToString(result)));
+			const QString message = objectToString(result);
+			engine->clearExceptions();
+			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(message));
 			return true;
 		}
 
-- 
2.43.0


From da111d1f86a0bb6538e08a9684368579b7005633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 58/63] fix: load the script again when the file or function
 name changed

---
 pillowcore/HttpHandlerQtScript.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 5b1d379..bb6aa42 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -130,6 +130,7 @@ void HttpHandlerQtScriptFile::setFileName(const QString &fileName)
 {
 	if (_fileName == fileName) return;
 	_fileName = fileName;
+	_lastModified = QDateTime(); // Whatever was loaded is of another file.
 
 	if (!QFile::exists(fileName))
 		qWarning() << "HttpHandlerQtScriptFile::setFileName: file" << fileName << "does not exist. This handler won't be able to handle requests.";
@@ -139,6 +140,7 @@ void HttpHandlerQtScriptFile::setFunctionName(const QString &functionName)
 {
 	if (_functionName == functionName) return;
 	_functionName = functionName;
+	_lastModified = QDateTime(); // The script has to be loaded again to get at the other function.
 }
 
 void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
-- 
2.43.0


From 76bfcd0b11ee20e6c3ee8944b3973ceb465d3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 59/63] fix: reload scripts whose modification time went back
 or that change while they are read

---
 pillowcore/HttpHandlerQtScript.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index bb6aa42..c913c6c 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -151,7 +151,8 @@ void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
 
 bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 {
-	if (!_lastModified.isValid() || (_autoReload && QFileInfo(_fileName).lastModified() > _lastModified))
+	const QDateTime lastModified = QFileInfo(_fileName).lastModified(); // From before the file is read, so that a change from then on gets noticed.
+	if (!_lastModified.isValid() || (_autoReload && lastModified.isValid() && lastModified != _lastModified))
 	{
 		// Time to (re)load the script.
 		qDebug() << "HttpHandlerQtScriptFile::handleRequest: (re)loading" << _fileName;
@@ -186,7 +187,7 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			return true;
 		}
 
-		_lastModified = QFileInfo(_fileName).lastModified();
+		_lastModified = lastModified;
 		setScriptFunction(scriptFunction);
 	}
 
-- 
2.43.0


From 835166a374246a565b24e7f07cefab3318d9af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 60/63] fix: refuse response lengths and chunk sizes of more
 than 64 bits

---
 pillowcore/parser/http_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 6dbabe8..d3a1ac4 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1463,7 +1463,7 @@ size_t http_parser_execute (http_parser *parser,
 			t += ch - '0';
 
 			/* Overflow? */
-			if (t < parser->content_length || t == ULLONG_MAX) {
+			if (parser->content_length > (ULLONG_MAX - (ch - '0')) / 10 || t == ULLONG_MAX) {
 			  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
 			  goto error;
 			}
@@ -1736,7 +1736,7 @@ size_t http_parser_execute (http_parser *parser,
 		t += unhex_val;
 
 		/* Overflow? */
-		if (t < parser->content_length || t == ULLONG_MAX) {
+		if (parser->content_length > (ULLONG_MAX - unhex_val) / 16 || t == ULLONG_MAX) {
 		  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
 		  goto error;
 		}
-- 
2.43.0


From 4bb5aed2def02d1ac7fae0fea2a57cfee3dc4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:25 +0000
Subject: [PATCH 61/63] fix: skip interim responses other than 100

---
 pillowcore/HttpClient.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 773af89..c067bf1 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -780,10 +780,16 @@ void Pillow::HttpClient::messageBegin()
 	Pillow::HttpResponseParser::messageBegin();
 }
 
+// Whether another response follows for the same request. There is none after the switch to another protocol.
+static bool isInterimResponse(int statusCode)
+{
+	return statusCode / 100 == 1 && statusCode != 101;
+}
+
 void Pillow::HttpClient::headersComplete()
 {
 	Pillow::HttpResponseParser::headersComplete();
-	if (statusCode() == 100)
+	if (isInterimResponse(statusCode()))
 		return;
 
 	emit headersCompleted();
@@ -842,9 +848,9 @@ void Pillow::HttpClient::messageComplete()
 	delete _contentDecoder;
 	_contentDecoder = 0;
 
-	if (statusCode() == 100)
+	if (isInterimResponse(statusCode()))
 	{
-		// Completely hide and ignore the 100 response we just received.
+		// Completely hide and ignore the interim response we just received.
 		clear();
 	}
 	else
-- 
2.43.0


From 01661ce2fcb779f3949ce01f02281745a3944cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:02 +0000
Subject: [PATCH 62/63] fix: send a file as announced when its size changes
 meanwhile

---
 pillowcore/HttpHandler.cpp | 17 ++++++++++++-----
 pillowcore/HttpHandler.h   |  1 +
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 1df68b6..f7fbd37 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -353,7 +353,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpConnection *connection, int bufferSize)
-	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize)
+	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize), _bytesRemaining(sourceDevice->size() - sourceDevice->pos())
 {
 	if (bufferSize < 512)
 	{
@@ -374,14 +374,21 @@ void HttpHandlerFileTransfer::writeNextPayload()
 
 	qint64 bytesToRead = _bufferSize - _connection->outputDevice()->bytesToWrite();
 	if (bytesToRead <= 0) return;
-	qint64 bytesAvailable = _sourceDevice->size() - _sourceDevice->pos();
-	if (bytesToRead > bytesAvailable) bytesToRead = bytesAvailable;
+	if (bytesToRead > _bytesRemaining) bytesToRead = _bytesRemaining;
 
 	if (bytesToRead > 0)
 	{
-		_connection->writeContent(_sourceDevice->read(bytesToRead));
+		const QByteArray payload = _sourceDevice->read(bytesToRead);
+		if (payload.isEmpty())
+		{
+			_connection->close(); // The source became shorter than announced: the response can not be completed.
+			return;
+		}
+
+		_bytesRemaining -= payload.size();
+		_connection->writeContent(payload);
 
-		if (_sourceDevice->atEnd())
+		if (_bytesRemaining == 0)
 			emit finished();
 	}
 }
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index d41fe72..2dd1029 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -205,6 +205,7 @@ namespace Pillow
 		QPointer<QIODevice> _sourceDevice;
 		QPointer<HttpConnection> _connection;
 		int _bufferSize;
+		qint64 _bytesRemaining; // Of the content that was announced, whatever happens to the file meanwhile.
 
 	public:
 		HttpHandlerFileTransfer(QIODevice* sourceDevice, Pillow::HttpConnection* connection, int bufferSize = HttpHandlerFile::DefaultBufferSize);
-- 
2.43.0


From 69d0d16202b4f85b5f58dba405df58d64c4b9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:21 +0000
Subject: [PATCH 63/63] fix: refuse bytes beyond ASCII as chunk size digits

---
 pillowcore/parser/http_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index d3a1ac4..3855250 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -181,6 +181,14 @@ static const int8_t unhex[256] =
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   };
 
 
-- 
2.43.0

