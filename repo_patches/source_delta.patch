From 7f183130112734bf9f20da921600d259f117e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:30 +0000
Subject: [PATCH 01/30] fix: NetIO loses received data when a party sends while
 the peer's data is still buffered

---
 emp-tool/io/net_io_channel.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 6566564..77efc86 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -24,7 +24,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	int mysocket = -1;
 	int consocket = -1;
 	FILE * stream = nullptr;
+	FILE * recv_stream = nullptr;
 	char * buffer = nullptr;
+	char * recv_buffer = nullptr;
 	bool has_sent = false;
 	string addr;
 	int port;
@@ -78,10 +80,16 @@ class NetIO: public IOChannel<NetIO> { public:
 			}
 		}
 		set_nodelay();
-		stream = fdopen(consocket, "wb+");
+		// One stream per direction: a single update stream drops data it has
+		// read ahead when it switches to writing, as sockets cannot seek.
+		stream = fdopen(consocket, "wb");
+		recv_stream = fdopen(dup(consocket), "rb");
 		buffer = new char[NETWORK_BUFFER_SIZE];
+		recv_buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
+		memset(recv_buffer, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE);
+		setvbuf(recv_stream, recv_buffer, _IOFBF, NETWORK_BUFFER_SIZE);
 		if(!quiet)
 			std::cout << "connected\n";
 	}
@@ -101,7 +109,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	~NetIO(){
 		flush();
 		fclose(stream);
+		fclose(recv_stream);
 		delete[] buffer;
+		delete[] recv_buffer;
 	}
 
 	void set_nodelay() {
@@ -136,7 +146,7 @@ class NetIO: public IOChannel<NetIO> { public:
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-			size_t res = fread(sent + (char*)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char*)data, 1, len - sent, recv_stream);
 			if (res > 0)
 				sent += res;
 			else
-- 
2.43.0


From 045ef3023690a4f28b54c35159ca9f1ae0959c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:55 +0000
Subject: [PATCH 02/30] fix: send_bool/recv_bool wire format depended on the
 alignment of each party's buffer

---
 emp-tool/io/io_channel.h | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..c843ee8 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -50,30 +50,14 @@ class IOChannel { public:
 		}
 	}	
 
+	// The wire format must not depend on where either party's buffer lies in
+	// memory, so there is no special treatment of unaligned leading elements.
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From ef5f6c4fe9d0687475a1396f2c9baf001ea75f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:26 +0000
Subject: [PATCH 03/30] fix: HighSpeedNetIO padded frames with uninitialised
 and out-of-bounds memory

---
 emp-tool/io/highspeed_net_io_channel.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..3f5504a 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -48,8 +48,11 @@ class SenderSubChannel : public SubChannel { public:
 	void flush() {
 		flushes++;
 		send_data_raw(buf, ptr);
-		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+		if (counter % NETWORK_BUFFER_SIZE2 != 0) {
+			// pad to a whole frame with zeros, not with whatever memory follows
+			memset(buf, 0, NETWORK_BUFFER_SIZE2);
+			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+		}
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From 8b84ace83de37ab6fbaaeb15f4eda9b995cecdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:21 +0000
Subject: [PATCH 04/30] fix: HighSpeedNetIO closed its sockets twice, hitting
 descriptors of other users

---
 emp-tool/io/highspeed_net_io_channel.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 3f5504a..f7bb292 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -206,10 +206,9 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 			std::cout << "Data Received: \t" << rchannel->counter << "\n";
 			std::cout << "Flushes:\t" << schannel->flushes << "\t" << rchannel->flushes << "\n";
 		}
+		// closing the streams closes the sockets
 		delete schannel;
 		delete rchannel;
-		close(send_sock);
-		close(recv_sock);
 	}
 
 	void sync() {}
-- 
2.43.0


From 14f7c3883bb5222712333249f59fd8a3826094b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:51 +0000
Subject: [PATCH 05/30] fix: network channels crashed when accept() failed;
 retry interrupted accepts, otherwise exit

---
 emp-tool/io/highspeed_net_io_channel.h | 10 +++++++++-
 emp-tool/io/net_io_channel.h           |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index f7bb292..35abea5 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -1,6 +1,7 @@
 #ifndef EMP_HIGHSPEED_NETWORK_IO_CHANNEL_H__
 #define EMP_HIGHSPEED_NETWORK_IO_CHANNEL_H__
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -177,7 +178,14 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 			perror("error: listen");
 			exit(1);
 		}
-		int sock = accept(mysocket, (struct sockaddr *)&dest, &socksize);
+		int sock;
+		do {
+			sock = accept(mysocket, (struct sockaddr *)&dest, &socksize);
+		} while (sock < 0 && (errno == EINTR || errno == ECONNABORTED));
+		if (sock < 0) {
+			perror("error: accept");
+			exit(1);
+		}
 		close(mysocket);
 		return sock;
 	}
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 77efc86..72d2782 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -2,6 +2,7 @@
 #define EMP_NETWORK_IO_CHANNEL
 
 #include <iostream>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -56,7 +57,13 @@ class NetIO: public IOChannel<NetIO> { public:
 				perror("error: listen");
 				exit(1);
 			}
-			consocket = accept(mysocket, (struct sockaddr *)&dest, &socksize);
+			do {
+				consocket = accept(mysocket, (struct sockaddr *)&dest, &socksize);
+			} while (consocket < 0 && (errno == EINTR || errno == ECONNABORTED));
+			if(consocket < 0) {
+				perror("error: accept");
+				exit(1);
+			}
 			close(mysocket);
 		}
 		else {
-- 
2.43.0


From 17accc38f9158f0b46537702a7bfaddda0fa37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:26 +0000
Subject: [PATCH 06/30] fix: HighSpeedNetIO looped for ever after the peer had
 gone

---
 emp-tool/io/highspeed_net_io_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 35abea5..eeb84a6 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -74,10 +74,10 @@ class SenderSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_send_data\n");
 		}
 	}
 };
@@ -117,10 +117,10 @@ class RecverSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fread(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From fdc191616076052cea18bf0d93778b2c4902bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:23 +0000
Subject: [PATCH 07/30] fix: network channels ignored failing flushes and
 reported success for undelivered data

---
 emp-tool/io/highspeed_net_io_channel.h | 3 ++-
 emp-tool/io/net_io_channel.h           | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index eeb84a6..bb4d8ed 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -54,7 +54,8 @@ class SenderSubChannel : public SubChannel { public:
 			memset(buf, 0, NETWORK_BUFFER_SIZE2);
 			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
 		}
-		fflush(stream);
+		if (fflush(stream) != 0)
+			error("net_flush\n");
 		ptr = 0;
 	}
 
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 72d2782..2ae809a 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -132,7 +132,8 @@ class NetIO: public IOChannel<NetIO> { public:
 	}
 
 	void flush() {
-		fflush(stream);
+		if(fflush(stream) != 0)
+			error("net_flush\n");
 	}
 
 	void send_data_internal(const void * data, size_t len) {
@@ -149,7 +150,7 @@ class NetIO: public IOChannel<NetIO> { public:
 
 	void recv_data_internal(void  * data, size_t len) {
 		if(has_sent)
-			fflush(stream);
+			flush();
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-- 
2.43.0


From dde38fd973cc5b96d867e2a32d07d74bfd561ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:40 +0000
Subject: [PATCH 08/30] fix: FileIO looped for ever at end of file, on a full
 disk or on an I/O error

---
 emp-tool/io/file_io_channel.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 173f78a..7b5807a 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -38,20 +38,20 @@ class FileIO: public IOChannel<FileIO> { public:
 		int sent = 0;
 		while(sent < len) {
 			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
 			else
-				fprintf(stderr,"error: file_send_data %d\n", res);
+				error("file_send_data\n");
 		}
 	}
 	void recv_data_internal(void  * data, int len) {
 		int sent = 0;
 		while(sent < len) {
 			int res = fread(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
-			else 
-				fprintf(stderr,"error: file_recv_data %d\n", res);
+			else
+				error("file_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From a231f1d3d30747cbd5d345a1cdeda42c35bddcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:44 +0000
Subject: [PATCH 09/30] fix: FileIO dereferenced a null stream when the file
 could not be opened

---
 emp-tool/io/file_io_channel.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 7b5807a..e84ccea 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -15,6 +15,10 @@ class FileIO: public IOChannel<FileIO> { public:
 			stream = fopen(file, "rb+");
 		else
 			stream = fopen(file, "wb+");
+		if (stream == nullptr) {
+			perror("error: fopen");
+			exit(1);
+		}
 		buffer = new char[FILE_BUFFER_SIZE];
 		memset(buffer, 0, FILE_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, FILE_BUFFER_SIZE);
-- 
2.43.0


From fc273f13bcc27cfc1b09180b53bdb6ab04e07aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 10/30] fix: FileIO ignored failing flush, rewind and close and
 lost data silently

---
 emp-tool/io/file_io_channel.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index e84ccea..6cac9e1 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -25,17 +25,19 @@ class FileIO: public IOChannel<FileIO> { public:
 	}
 
 	~FileIO(){
-		fflush(stream);
-		fclose(stream);
+		if (fclose(stream) != 0)
+			error("file_close\n");
 		delete[] buffer;
 	}
 
 	void flush() {
-		fflush(stream);
+		if (fflush(stream) != 0)
+			error("file_flush\n");
 	}
 
 	void reset() {
-		rewind(stream);
+		if (fseek(stream, 0, SEEK_SET) != 0)
+			error("file_reset\n");
 	}
 	void send_data_internal(const void * data, int len) {
 		bytes_sent += len;
-- 
2.43.0


From 7b3d6dbaf51787b9cd0cb3dcb5af57640082c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:11 +0000
Subject: [PATCH 11/30] fix: FileIO resumed after a failed write, silently
 dropping the data stdio had buffered

---
 emp-tool/io/file_io_channel.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 6cac9e1..2739d32 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -41,14 +41,10 @@ class FileIO: public IOChannel<FileIO> { public:
 	}
 	void send_data_internal(const void * data, int len) {
 		bytes_sent += len;
-		int sent = 0;
-		while(sent < len) {
-			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res > 0)
-				sent+=res;
-			else
-				error("file_send_data\n");
-		}
+		// a short count means that a write failed and buffered data was dropped,
+		// so there is nothing to resume
+		if (len > 0 && fwrite(data, 1, len, stream) != (size_t)len)
+			error("file_send_data\n");
 	}
 	void recv_data_internal(void  * data, int len) {
 		int sent = 0;
-- 
2.43.0


From 176f8ee1902ee5bb5907f27b17d3c4dfdcf77398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:07 +0000
Subject: [PATCH 12/30] fix: MemIO reported success when reading more than was
 written

---
 emp-tool/io/mem_io_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..310aa01 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -49,7 +49,7 @@ class MemIO: public IOChannel<MemIO> { public:
 			memcpy(data, buffer + read_pos, len);
 			read_pos += len;
 		} else {
-			fprintf(stderr,"error: mem_recv_data\n");
+			error("error: mem_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From 674b0e2b192bea4074573551ed0af8575319020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:09 +0000
Subject: [PATCH 13/30] fix: MemIO::clear kept the old read position

---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 310aa01..a34c9dd 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From 1883e82d6d15d7a66280cb93929246c99b6353cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:20 +0000
Subject: [PATCH 14/30] fix: MemIO::load_from_file left a dangling buffer when
 the allocation failed

---
 emp-tool/io/mem_io_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index a34c9dd..7c5f2ee 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -22,8 +22,9 @@ class MemIO: public IOChannel<MemIO> { public:
 			delete[] buffer;
 	}
 	void load_from_file(FileIO * fio, int64_t size) {
+		char * new_buffer = new char[size];
 		delete[] buffer;
-		buffer = new char[size];
+		buffer = new_buffer;
 		this->cap = size;
 		this->read_pos = 0;
 		this->size = size;
-- 
2.43.0


From d1dc89105a3fc8579c113f17d8bf2b5bd728bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:25 +0000
Subject: [PATCH 15/30] fix: privacy-free evaluator used only the low half of
 the garbled row

---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From 57c77905d2fb8fa96e0d05a04a79806626865ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:00 +0000
Subject: [PATCH 16/30] fix: half-gates num_and() rounded up to the next hash
 batch

---
 emp-tool/gc/halfgate_eva.h | 2 +-
 emp-tool/gc/halfgate_gen.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..cd8df3f 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -58,7 +58,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..e672509 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -76,7 +76,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
-- 
2.43.0


From ee7041b7483fc3e67b5b1dec808c9bde51df4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 17/30] fix: Hash::put hashed large inputs before smaller data
 fed earlier

---
 emp-tool/utils/hash.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..2756924 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,13 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			if(size > 0) {
+				EVP_DigestUpdate(mdctx, buffer, size);
+				size = 0;
+			}
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From 5573687efc89d3260f890dd42135ca71f408a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 18/30] fix: PRG::reseed kept words of the old stream for
 operator()

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..5e64ca7 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From b3e9109c5d42e01d5cc510176aa68f0ff5493ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:14 +0000
Subject: [PATCH 19/30] fix: PRG streams of two parties diverged after a
 16-byte request into a misaligned buffer

---
 emp-tool/utils/prg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5e64ca7..c41319a 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -104,7 +104,7 @@ class PRG { public:
             }
         } else {
             block tmp[2];
-            random_block(tmp, 2);
+            random_block(tmp, (nbytes + sizeof(block) - 1) / sizeof(block));
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From cbdcdaf818de58465f3b2b2a7f482f3211757cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:36 +0000
Subject: [PATCH 20/30] fix: circuit file loaders ran truncated, unreadable and
 missing files

---
 emp-tool/circuits/circuit_file.h | 58 +++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..f1490d7 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -81,23 +81,34 @@ class BristolFormat { public:
 
 	void from_file(FILE * f) {
 		int tmp;
-		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
-		(void)fscanf(f, "%d%d%d\n", &n1, &n2, &n3);
-		(void)fscanf(f, "\n");
-		char str[10];
+		if (f == nullptr)
+			error("circuit file: cannot be opened");
+		if (fscanf(f, "%d%d", &num_gate, &num_wire) != 2 or fscanf(f, "%d%d%d", &n1, &n2, &n3) != 3)
+			error("circuit file: bad header");
+		if (num_gate < 0 or num_wire < 0 or n1 < 0 or n2 < 0 or n3 < 0 or (int64_t)n1 + n2 > num_wire or n3 > num_wire)
+			error("circuit file: bad header");
+		char str[10] = "";
 		gates.resize(num_gate*4);
 		wires.resize(num_wire);
 		for(int i = 0; i < num_gate; ++i) {
-			(void)fscanf(f, "%d", &tmp);
+			int read = 0;
+			if (fscanf(f, "%d", &tmp) != 1)
+				error("circuit file: truncated");
 			if (tmp == 2) {
-				(void)fscanf(f, "%d%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str);
+				read = fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str) == 5;
 				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
 				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
 			}
 			else if (tmp == 1) {
-				(void)fscanf(f, "%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+2], str);
+				read = fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str) == 4;
+				gates[4*i+1] = gates[4*i];
 				gates[4*i+3] = NOT_GATE;
 			}
+			if (!read)
+				error("circuit file: bad or truncated gate");
+			for (int j = 0; j < 3; ++j)
+				if (gates[4*i+j] < 0 or gates[4*i+j] >= num_wire)
+					error("circuit file: gate uses a wire that does not exist");
 		}
 	}
 
@@ -144,33 +155,48 @@ class BristolFashion { public:
 
 	void from_file(FILE * f) {
 		int tmp;
-		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
+		if (f == nullptr)
+			error("circuit file: cannot be opened");
+		if (fscanf(f, "%d%d", &num_gate, &num_wire) != 2 or num_gate < 0 or num_wire < 0)
+			error("circuit file: bad header");
 		int niov = 0;
-		(void)fscanf(f, "%d", &niov);
+		if (fscanf(f, "%d", &niov) != 1)
+			error("circuit file: bad header");
 		for(int i = 0; i < niov; ++i) {
-			(void)fscanf(f, "%d", &tmp);
+			if (fscanf(f, "%d", &tmp) != 1 or tmp < 0 or tmp > num_wire - num_input)
+				error("circuit file: bad header");
 			num_input += tmp;
 		}
-		(void)fscanf(f, "%d", &niov);
+		if (fscanf(f, "%d", &niov) != 1)
+			error("circuit file: bad header");
 		for(int i = 0; i < niov; ++i) {
-			(void)fscanf(f, "%d", &tmp);
+			if (fscanf(f, "%d", &tmp) != 1 or tmp < 0 or tmp > num_wire - num_output)
+				error("circuit file: bad header");
 			num_output += tmp;
 		}
 
-		char str[10];
+		char str[10] = "";
 		gates.resize(num_gate*4);
 		wires.resize(num_wire);
 		for(int i = 0; i < num_gate; ++i) {
-			(void)fscanf(f, "%d", &tmp);
+			int read = 0;
+			if (fscanf(f, "%d", &tmp) != 1)
+				error("circuit file: truncated");
 			if (tmp == 2) {
-				(void)fscanf(f, "%d%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str);
+				read = fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str) == 5;
 				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
 				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
 			}
 			else if (tmp == 1) {
-				(void)fscanf(f, "%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+2], str);
+				read = fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str) == 4;
+				gates[4*i+1] = gates[4*i];
 				gates[4*i+3] = NOT_GATE;
 			}
+			if (!read)
+				error("circuit file: bad or truncated gate");
+			for (int j = 0; j < 3; ++j)
+				if (gates[4*i+j] < 0 or gates[4*i+j] >= num_wire)
+					error("circuit file: gate uses a wire that does not exist");
 		}
 	}
 
-- 
2.43.0


From 6aa2e7b921b2ad17e8614efbaefefc5263eafce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:32 +0000
Subject: [PATCH 21/30] fix: recorded circuits returned input wire 0 for
 outputs that are public constants

---
 emp-tool/execution/plain_prot.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..b19dc67 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -14,7 +14,8 @@ public:
 	bool print;
 	string filename;
 	PlainCircExec * cast_circ_exec;
-	std::vector<int64_t>output_vec;
+	std::vector<int64_t>output_vec;//wire of each output, or one of the constants
+	enum : int64_t { OUTPUT_ZERO = -1, OUTPUT_ONE = -2 };
 	PlainProt(bool _print, string _filename) : print(_print), 
 	filename(_filename) {
 	 cast_circ_exec = static_cast<PlainCircExec *> (CircuitExecution::circ_exec);
@@ -46,7 +47,10 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
+			if (cast_circ_exec->is_public(label[i], PUBLIC))
+				output_vec.push_back(cast_circ_exec->get_value(label[i]) ? OUTPUT_ONE : OUTPUT_ZERO);
+			else
+				output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
 		}
 		n3+=length;
@@ -63,7 +67,17 @@ inline void finalize_plain_prot () {
 	PlainProt * cast_prot_exec = static_cast<PlainProt*> (ProtocolExecution::prot_exec);
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
+	int64_t one_index = -1;
 	for (auto v : cast_prot_exec->output_vec) {
+		if (v == PlainProt::OUTPUT_ONE and one_index < 0) {
+			one_index = cast_circ_exec->gid++;
+			cast_circ_exec->gates++;
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<one_index<<" INV"<<endl;
+		}
+	}
+	for (auto v : cast_prot_exec->output_vec) {
+		if (v == PlainProt::OUTPUT_ZERO) v = z_index;
+		else if (v == PlainProt::OUTPUT_ONE) v = one_index;
 		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
-- 
2.43.0


From b860c79090481e37f14103e88550b0078bb50655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:32 +0000
Subject: [PATCH 22/30] fix: BristolFashion::from_file added up inputs and
 outputs when loading again

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index f1490d7..e6c8c94 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -160,6 +160,7 @@ class BristolFashion { public:
 		if (fscanf(f, "%d%d", &num_gate, &num_wire) != 2 or num_gate < 0 or num_wire < 0)
 			error("circuit file: bad header");
 		int niov = 0;
+		num_input = num_output = 0;
 		if (fscanf(f, "%d", &niov) != 1)
 			error("circuit file: bad header");
 		for(int i = 0; i < niov; ++i) {
-- 
2.43.0


From d62e039a458a6dd5e8627bb00dde6a5d48838305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:51 +0000
Subject: [PATCH 23/30] fix: circuit file loaders executed unsupported gate
 types as AND or NOT

---
 emp-tool/circuits/circuit_file.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index e6c8c94..7d2ef44 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -98,10 +98,12 @@ class BristolFormat { public:
 				read = fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str) == 5;
 				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
 				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
+				else error("circuit file: unsupported gate");
 			}
 			else if (tmp == 1) {
 				read = fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str) == 4;
 				gates[4*i+1] = gates[4*i];
+				if (str[0] == 'E') error("circuit file: unsupported gate");//EQ, EQW
 				gates[4*i+3] = NOT_GATE;
 			}
 			if (!read)
@@ -187,10 +189,12 @@ class BristolFashion { public:
 				read = fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str) == 5;
 				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
 				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
+				else error("circuit file: unsupported gate");
 			}
 			else if (tmp == 1) {
 				read = fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str) == 4;
 				gates[4*i+1] = gates[4*i];
+				if (str[0] == 'E') error("circuit file: unsupported gate");//EQ, EQW
 				gates[4*i+3] = NOT_GATE;
 			}
 			if (!read)
-- 
2.43.0


From 40b783855cb7d57981c367a1b46b9e61a68d5f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 24/30] fix: FileIO truncated lengths to int and silently
 dropped messages of 2 GiB and more

---
 emp-tool/io/file_io_channel.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 2739d32..7c83440 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -39,17 +39,17 @@ class FileIO: public IOChannel<FileIO> { public:
 		if (fseek(stream, 0, SEEK_SET) != 0)
 			error("file_reset\n");
 	}
-	void send_data_internal(const void * data, int len) {
+	void send_data_internal(const void * data, size_t len) {
 		bytes_sent += len;
 		// a short count means that a write failed and buffered data was dropped,
 		// so there is nothing to resume
-		if (len > 0 && fwrite(data, 1, len, stream) != (size_t)len)
+		if (len > 0 && fwrite(data, 1, len, stream) != len)
 			error("file_send_data\n");
 	}
-	void recv_data_internal(void  * data, int len) {
-		int sent = 0;
+	void recv_data_internal(void  * data, size_t len) {
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fread(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fread(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
-- 
2.43.0


From 995eb8df997aeff7c929ca3691e7c383968f2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 25/30] fix: HighSpeedNetIO truncated lengths to int and
 dropped messages of 2 GiB and more

---
 emp-tool/io/highspeed_net_io_channel.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index bb4d8ed..33ad8ed 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -59,7 +59,7 @@ class SenderSubChannel : public SubChannel { public:
 		ptr = 0;
 	}
 
-	void send_data(const void *data, int len) {
+	void send_data(const void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(buf + ptr, data, len);
 			ptr += len;
@@ -70,11 +70,11 @@ class SenderSubChannel : public SubChannel { public:
 		}
 	}
 
-	void send_data_raw(const void *data, int len) {
+	void send_data_raw(const void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fwrite(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -90,12 +90,12 @@ class RecverSubChannel : public SubChannel { public:
 		ptr = NETWORK_BUFFER_SIZE2;
 	}
 
-	void recv_data(void *data, int len) {
+	void recv_data(void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(data, buf + ptr, len);
 			ptr += len;
 		} else {
-			int remain = len;
+			int64_t remain = len;
 			memcpy(data, buf + ptr, NETWORK_BUFFER_SIZE2 - ptr);
 			remain -= NETWORK_BUFFER_SIZE2 - ptr;
 
@@ -113,11 +113,11 @@ class RecverSubChannel : public SubChannel { public:
 		}
 	}
 
-	void recv_data_raw(void *data, int len) {
+	void recv_data_raw(void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fread(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fread(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -243,7 +243,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 0;
 	}
 
-	void send_data_internal(const void *data, int len) {
+	void send_data_internal(const void *data, int64_t len) {
 		if (FSM == 1) {
 			rchannel->flush();
 		}
@@ -251,7 +251,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 2;
 	}
 
-	void recv_data_internal(void *data, int len) {
+	void recv_data_internal(void *data, int64_t len) {
 		if (FSM == 2) {
 			schannel->flush();
 		}
-- 
2.43.0


From 429dde02c950d09064ab2cb3bae3817902bbfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:47 +0000
Subject: [PATCH 26/30] fix: Hash took lengths as int and failed on pieces of 2
 GiB and more

---
 emp-tool/utils/hash.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 2756924..df5192f 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -22,7 +22,7 @@ class Hash { public:
 	~Hash() {
 		EVP_MD_CTX_destroy(mdctx);
 	}
-	void put(const void * data, int nbyte) {
+	void put(const void * data, size_t nbyte) {
 		if (nbyte >= HASH_BUFFER_SIZE) {
 			if(size > 0) {
 				EVP_DigestUpdate(mdctx, buffer, size);
@@ -38,7 +38,7 @@ class Hash { public:
 			size = nbyte;
 		}
 	}
-	void put_block(const block* blk, int nblock=1){
+	void put_block(const block* blk, size_t nblock=1){
 		put(blk, sizeof(block)*nblock);
 	}
 	void digest(void * a) {
@@ -54,7 +54,7 @@ class Hash { public:
 		EVP_DigestInit_ex(mdctx, EVP_sha256(), NULL);
 		size=0;
 	}
-	static void hash_once(void * dgst, const void * data, int nbyte) {
+	static void hash_once(void * dgst, const void * data, size_t nbyte) {
 		Hash hash;
 		hash.put(data, nbyte);
 		hash.digest(dgst);
@@ -62,7 +62,7 @@ class Hash { public:
 	#ifdef __x86_64__
 	__attribute__((target("sse2")))
 	#endif
-	static block hash_for_block(const void * data, int nbyte) {
+	static block hash_for_block(const void * data, size_t nbyte) {
 		char digest[DIGEST_SIZE];
 		hash_once(digest, data, nbyte);
 		return _mm_load_si128((__m128i*)&digest[0]);
-- 
2.43.0


From a38bd57490cae3d29b54ef6d5ba072869647d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 27/30] fix: ThreadPool left its started workers behind when a
 later one could not be started

---
 emp-tool/utils/ThreadPool.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/emp-tool/utils/ThreadPool.h b/emp-tool/utils/ThreadPool.h
index 83143a5..f168c65 100644
--- a/emp-tool/utils/ThreadPool.h
+++ b/emp-tool/utils/ThreadPool.h
@@ -67,6 +67,7 @@ int inline ThreadPool::size() const {
 inline ThreadPool::ThreadPool(size_t threads)
     :   stop(false)
 {
+    try {
     for(size_t i = 0;i<threads;++i)
         workers.emplace_back(
             [this]
@@ -89,6 +90,17 @@ inline ThreadPool::ThreadPool(size_t threads)
                 }
             }
         );
+    } catch (...) {
+        // not all workers could be started: end the others before giving up
+        {
+            std::unique_lock<std::mutex> lock(queue_mutex);
+            stop = true;
+        }
+        condition.notify_all();
+        for(std::thread &worker: workers)
+            worker.join();
+        throw;
+    }
 }
 
 // add new work item to the pool
-- 
2.43.0


From fc71f54d054697012c563206db81fdd73a9581c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 28/30] fix: NetIO and HighSpeedNetIO used a null stream when
 fdopen failed

---
 emp-tool/io/highspeed_net_io_channel.h | 4 ++++
 emp-tool/io/net_io_channel.h           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 33ad8ed..9ff3c06 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -33,6 +33,10 @@ class SubChannel { public:
 		stream_buf = new char[NETWORK_BUFFER_SIZE];
 		buf = new char[NETWORK_BUFFER_SIZE2];
 		stream = fdopen(sock, "wb+");
+		if (stream == nullptr) {
+			perror("error: fdopen");
+			exit(1);
+		}
 		memset(stream_buf, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, stream_buf, _IOFBF, NETWORK_BUFFER_SIZE);
 	}
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 2ae809a..cf31281 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -91,6 +91,10 @@ class NetIO: public IOChannel<NetIO> { public:
 		// read ahead when it switches to writing, as sockets cannot seek.
 		stream = fdopen(consocket, "wb");
 		recv_stream = fdopen(dup(consocket), "rb");
+		if(stream == nullptr || recv_stream == nullptr) {
+			perror("error: fdopen");
+			exit(1);
+		}
 		buffer = new char[NETWORK_BUFFER_SIZE];
 		recv_buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
-- 
2.43.0


From e482446a374619be30bba45b97d914cdc68ad6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 29/30] fix: carry the AES-CTR counter beyond 64 bits

The counter block of CTR mode is one 128-bit big-endian number. The start
chunk and the out-of-circuit IV variant advanced only its low 64 bits, so a
program that encrypts in circuit obtained other bytes than OpenSSL (and than
the in-circuit IV variant) once the low half overflows.
---
 emp-tool/circuits/aes_128_ctr.h | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..d21cb99 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -23,6 +23,16 @@ extern unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[];
 
 namespace emp {
 
+// Advance a (big-endian, 128-bit) counter block.
+inline void aes_128_ctr_advance(__m128i * counter, uint64_t chunks) {
+	uint8_t * bytes = (uint8_t *) counter;
+	for (int i = 15; i >= 0 && chunks != 0; --i) {
+		const bool carry = __builtin_add_overflow(chunks, (uint64_t) bytes[i], &chunks);
+		bytes[i] = (uint8_t) chunks;
+		chunks = (chunks >> 8) | ((uint64_t) carry << 56);
+	}
+}
+
 // Calculate the AES_128_CTR encryption of some bytes
 // (length refers to the number of elements of type T in the array "input").
 template<typename T>
@@ -34,16 +44,7 @@ int aes_128_ctr(const __m128i key,
 		const uint64_t start_chunk = 0) {
 	const size_t num_bytes = (input == nullptr) ? length : (length * sizeof(T));
 	__m128i counter = iv;
-	if (start_chunk != 0) { // increment iv, but it's big-endian, so it's funky
-		uint64_t count;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&count))[i] = ((uint8_t *)(&counter))[15 - i];
-		}
-		count += start_chunk;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
-		}
-	}
+	aes_128_ctr_advance(&counter, start_chunk); // increment iv, but it's big-endian, so it's funky
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
                 return -1;
@@ -209,16 +210,9 @@ class AES_128_CTR_Calculator { public:
 
 		int answer;
 		__m128i counter = iv;
-		uint64_t count;
-		for(size_t j = 0; j < 8; ++j) {
-			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
-		}
-		count += start_chunk;
+		aes_128_ctr_advance(&counter, start_chunk);
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
-			for(size_t j = 0; j < 8; ++j) {
-				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
-			}
 			answer = this->aes_128_ctr(nullptr,
 					&(emp::Integer(128, &counter, party).bits[0].bit),
 					(input == nullptr ) ? nullptr : &(input[ 128 * i]),
@@ -229,7 +223,7 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			aes_128_ctr_advance(&counter, 1);
 		}
 
 		return 0;
-- 
2.43.0


From bc54230c9f4ff9167ab6e3abff3af1c0a718040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:24 +0000
Subject: [PATCH 30/30] fix: refuse circuit gates by name, not by first letter

XNOR was run as XOR, and any one-input gate not starting with E as NOT.
---
 emp-tool/circuits/circuit_file.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 7d2ef44..aeee032 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -6,6 +6,7 @@
 #include "emp-tool/utils/block.h"
 #include "emp-tool/circuits/bit.h"
 #include <stdio.h>
+#include <string.h>
 #include <fstream>
 
 using std::vector;
@@ -96,14 +97,15 @@ class BristolFormat { public:
 				error("circuit file: truncated");
 			if (tmp == 2) {
 				read = fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str) == 5;
-				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
-				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
+				if (strcmp(str, "AND") == 0) gates[4*i+3] = AND_GATE;
+				else if (strcmp(str, "XOR") == 0) gates[4*i+3] = XOR_GATE;
 				else error("circuit file: unsupported gate");
 			}
 			else if (tmp == 1) {
 				read = fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str) == 4;
 				gates[4*i+1] = gates[4*i];
-				if (str[0] == 'E') error("circuit file: unsupported gate");//EQ, EQW
+				if (strcmp(str, "INV") != 0 and strcmp(str, "NOT") != 0)
+					error("circuit file: unsupported gate");//EQ, EQW, ...
 				gates[4*i+3] = NOT_GATE;
 			}
 			if (!read)
@@ -187,14 +189,15 @@ class BristolFashion { public:
 				error("circuit file: truncated");
 			if (tmp == 2) {
 				read = fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str) == 5;
-				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
-				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
+				if (strcmp(str, "AND") == 0) gates[4*i+3] = AND_GATE;
+				else if (strcmp(str, "XOR") == 0) gates[4*i+3] = XOR_GATE;
 				else error("circuit file: unsupported gate");
 			}
 			else if (tmp == 1) {
 				read = fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str) == 4;
 				gates[4*i+1] = gates[4*i];
-				if (str[0] == 'E') error("circuit file: unsupported gate");//EQ, EQW
+				if (strcmp(str, "INV") != 0 and strcmp(str, "NOT") != 0)
+					error("circuit file: unsupported gate");//EQ, EQW, ...
 				gates[4*i+3] = NOT_GATE;
 			}
 			if (!read)
-- 
2.43.0

