From 7976915a4b60425636a0463df9d6e73ea0df4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:52 +0000
Subject: [PATCH 01/59] fix: latch stream exhaustion for the duration of a
 parse or serialize call

Transactions and PSBTs are parsed in stages that assume the stream stays
empty once it ran dry. If a byte arrived (or room became free) between two
stages of one call it was handed to the wrong sub-object.
---
 src/BaseClasses.cpp | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..641319e 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -7,12 +7,47 @@ using std::string;
 #define String string
 #endif
 
+// Objects parse and serialize in stages and rely on the stream staying exhausted for the rest
+// of the call once it ran out of data (or room). With interrupt-driven streams data can arrive
+// at any moment, so these wrappers latch the exhausted state until the call returns.
+class LatchedParseStream: public ParseStream{
+private:
+    ParseStream * stream;
+    bool exhausted;
+public:
+    LatchedParseStream(ParseStream * s){ stream = s; exhausted = false; };
+    size_t available(){
+        size_t a = exhausted ? 0 : stream->available();
+        exhausted = (a == 0);
+        return a;
+    };
+    int read(){ return stream->read(); };
+    size_t read(uint8_t *arr, size_t length){ return stream->read(arr, length); };
+    int getLast(){ return stream->getLast(); };
+};
+class LatchedSerializeStream: public SerializeStream{
+private:
+    SerializeStream * stream;
+    bool exhausted;
+public:
+    LatchedSerializeStream(SerializeStream * s){ stream = s; exhausted = false; };
+    size_t available(){
+        size_t a = exhausted ? 0 : stream->available();
+        exhausted = (a == 0);
+        return a;
+    };
+    size_t write(uint8_t b){ return stream->write(b); };
+    size_t write(const uint8_t *arr, size_t len){ return stream->write(arr, len); };
+};
+
 size_t SerializeStream::serialize(const Streamable * s, size_t offset){
-    return s->to_stream(this, offset);
+    LatchedSerializeStream latched(this);
+    return s->to_stream(&latched, offset);
 }
 
 size_t ParseStream::parse(Streamable * s){
-    return s->from_stream(this);
+    LatchedParseStream latched(this);
+    return s->from_stream(&latched);
 }
 /************ Parse Byte Stream Class ************/
 
-- 
2.43.0


From 6ff9fa865f2ba687b102c8c1cd0baeb655fdc433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:54 +0000
Subject: [PATCH 02/59] fix: do not parse non-hex characters as 0xff bytes

available() kept reporting data although read() refused the next character,
so parsers stored -1 and completed on text that is not hex.
---
 src/BaseClasses.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 641319e..f6dde6c 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -71,6 +71,10 @@ ParseByteStream::~ParseByteStream(){
 }
 size_t ParseByteStream::available(){
     if(format == HEX_ENCODING){
+        // nothing more can be read if the next character is not hex
+        if(cursor+1 < len && (hexToVal(buf[cursor]) > 0x0F || hexToVal(buf[cursor+1]) > 0x0F)){
+            return 0;
+        }
         return (len - cursor)/2;
     }else{
         return len-cursor;
@@ -78,7 +82,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor+1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
-- 
2.43.0


From 8847d46b49308dc8ffcdd49e0bebbe7288f37c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:35 +0000
Subject: [PATCH 03/59] fix: script parsing of an empty chunk, of wide lengths
 and of zero-length scripts

---
 src/Script.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..7893834 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -254,12 +254,12 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
+    if(scriptArray != NULL){
         free(scriptArray);
         scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
     }
+    scriptLen = 0;
+    lenLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -271,6 +271,9 @@ size_t Script::from_stream(ParseStream *s){
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
+    if(!s->available()){ // nothing to parse yet
+        return 0;
+    }
     // reading scriptLen varint
     if(s->available() && bytes_parsed == 0){ 
         lenLen = s->read();
@@ -289,7 +292,7 @@ size_t Script::from_stream(ParseStream *s){
         if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        scriptLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
     if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
-- 
2.43.0


From 45a25e1d044c42254f110fb92d154bd21c2a73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:36 +0000
Subject: [PATCH 04/59] fix: leaks in Script::push

---
 src/Script.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 7893834..1fc6af3 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -443,6 +443,9 @@ size_t Script::push(const uint8_t * data, size_t len){
         clear();
         return 0;
     }
+    if(len == 0){
+        return scriptLen;
+    }
     if(scriptLen == 0){
         scriptArray = (uint8_t *) calloc( len, sizeof(uint8_t));
     }else{
@@ -477,6 +480,7 @@ size_t Script::push(const Script sc){
     if(tmp == NULL){ return 0; }
     sc.serialize(tmp, len);
     push(tmp, len);
+    free(tmp);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From 2b5d4882905739d069e108646735e6c400a98b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:38 +0000
Subject: [PATCH 05/59] fix: witness parsing with a fragmented element length,
 an empty chunk or a failed allocation

---
 src/Script.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 1fc6af3..4162ac4 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -515,6 +515,7 @@ void Witness::clear(){
     numElements = 0;
     if(witnessLen > 0){
         free(witnessArray);
+        witnessArray = NULL;
         witnessLen = 0;
     }
 }
@@ -554,6 +555,9 @@ size_t Witness::from_stream(ParseStream *s){
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
+    if(!s->available()){ // nothing to parse yet
+        return 0;
+    }
     // reading elements len varint
     if(s->available() && bytes_parsed == 0){ 
         lenLen = s->read();
@@ -591,7 +595,7 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((size_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
         if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
@@ -601,6 +605,13 @@ size_t Witness::from_stream(ParseStream *s){
             bytes_parsed+=bytes_read;
             return bytes_read;
         }
+        if(cur_element_len > SIZE_MAX - curLen - witnessLen){ // length overflow
+            status = PARSING_FAILED;
+            cur_bytes_parsed+=cur_bytes_read;
+            bytes_read+=cur_bytes_read;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
         if(cur_bytes_parsed+cur_bytes_read == curLen && cur_bytes_read>0){
             if(witnessLen==0){
                 witnessLen = cur_element_len+lenVarInt(cur_element_len);
@@ -609,18 +620,18 @@ size_t Witness::from_stream(ParseStream *s){
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
             }
         }
-        while(s->available() > 0 && cur_bytes_parsed+cur_bytes_read < cur_element_len+lenVarInt(cur_element_len)){
+        while(s->available() > 0 && cur_bytes_parsed+cur_bytes_read < cur_element_len+curLen){
             witnessArray[offset+cur_bytes_parsed+cur_bytes_read] = s->read();
             // s->read();
             cur_bytes_read++;
         }
-        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
+        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+curLen){
             curLen = 0;
             cur_element_len = 0;
             cur_element++;
@@ -665,7 +676,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         if(witnessArray == NULL){ witnessLen = 0; return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
-- 
2.43.0


From f2ca7d9e75748861f6a7374c1a46606a4ee4f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:06 +0000
Subject: [PATCH 06/59] fix: reject transactions with multi-byte input or
 output counts instead of misparsing them

---
 src/Transaction.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..f9cfcfc 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -372,9 +372,13 @@ size_t Tx::from_stream(ParseStream *s){
         bytes_read++;
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
+        }else if(c >= 0xfd){ // multi-byte varints are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
         }else{
+            txIns = new TxIn[c];
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
-            txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
                 bytes_read += s->parse(&txIns[i]);
             }
@@ -390,9 +394,15 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
-        txIns = new TxIn[inputsNumber];
+        if(c >= 0xfd){ // multi-byte varints are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        txIns = new TxIn[c];
+        inputsNumber = c;
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
         }
@@ -412,9 +422,15 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
-        txOuts = new TxOut[outputsNumber];
+        if(c >= 0xfd){ // multi-byte varints are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        txOuts = new TxOut[c];
+        outputsNumber = c;
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
         }
-- 
2.43.0


From 23e8ba1b7681597ed7d029ef1171d4993f1b3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:07 +0000
Subject: [PATCH 07/59] fix: transactions with no inputs or outputs leaked
 memory, failed assignment left dangling pointers

---
 src/Transaction.cpp | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index f9cfcfc..471d515 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -230,16 +230,11 @@ Tx::Tx(const Tx & other){
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    clear();
+    txIns = new TxIn[other.inputsNumber];
     inputsNumber = other.inputsNumber;
+    txOuts = new TxOut[other.outputsNumber];
     outputsNumber = other.outputsNumber;
-    txIns = new TxIn[inputsNumber];
-    txOuts = new TxOut[outputsNumber];
     for(unsigned int i=0;i<inputsNumber;i++){
         txIns[i] = other.txIns[i];
     }
@@ -256,16 +251,12 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
-        delete [] txIns;
-        txIns = NULL;
-    }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
-        delete [] txOuts;
-        txOuts = NULL;
-    }
+    inputsNumber = 0;
+    delete [] txIns;
+    txIns = NULL;
+    outputsNumber = 0;
+    delete [] txOuts;
+    txOuts = NULL;
 }
 size_t Tx::length() const{
     bool is_segwit = isSegwit();
@@ -620,9 +611,7 @@ uint8_t Tx::addInput(const TxIn txIn){
         arr[i] = txIns[i];
     }
     arr[inputsNumber] = txIn;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
+    delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
@@ -633,9 +622,7 @@ uint8_t Tx::addOutput(const TxOut txOut){
         arr[i] = txOuts[i];
     }
     arr[outputsNumber] = txOut;
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
     return outputsNumber;
-- 
2.43.0


From cae4074d3eae0c800a5a49e4942219b37bc36af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:08 +0000
Subject: [PATCH 08/59] fix: stale or uninitialised TxIn state, counts above
 252 serialized as a single byte

---
 src/Transaction.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 471d515..83c43fa 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -35,6 +35,7 @@ TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, uint32_t sequence_num
     }
 }
 TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     for(int i=0; i<32; i++){
@@ -57,6 +58,7 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
@@ -78,6 +80,7 @@ size_t TxIn::from_stream(ParseStream *s){
         outputIndex = 0;
         sequence = 0;
         scriptSig = Script();
+        witness = Witness();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -299,7 +302,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -312,7 +315,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -443,6 +446,9 @@ size_t Tx::from_stream(ParseStream *s){
     if(segwit_flag > 0 && bytes_read+bytes_parsed == current_offset){
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins witnesses to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i].witness);
+            if(txIns[i].witness.getStatus() == PARSING_FAILED){
+                break;
+            }
         }
     }
     if(segwit_flag > 0){
-- 
2.43.0


From 98fc1f6141991b3708d48dfa7ad4d7f96d46fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:11 +0000
Subject: [PATCH 09/59] fix: PSBT and Tx copies shared or leaked metadata,
 partially parsed PSBTs freed uninitialised pointers

---
 src/PSBT.cpp        | 239 ++++++++++++++------------------------------
 src/PSBT.h          |   2 +
 src/Transaction.cpp |  19 +---
 3 files changed, 81 insertions(+), 179 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..fe30d6f 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -91,36 +91,10 @@ size_t PSBT::from_stream(ParseStream *s){
     }
     if(status == PARSING_DONE){
         // free memory
-        if(tx.inputsNumber > 0){
-            for(size_t i=0; i<tx.inputsNumber; i++){
-                if(txInsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txInsMeta[i].derivations;
-                }
-                if(txInsMeta[i].signaturesLen > 0){
-                    delete [] txInsMeta[i].signatures;
-                }
-            }
-            delete [] txInsMeta;
-        }
-        if(tx.outputsNumber > 0){
-            for(size_t i=0; i<tx.outputsNumber; i++){
-                if(txOutsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txOutsMeta[i].derivations;
-                }
-            }
-            delete [] txOutsMeta;
-        }
-        tx.reset();
+        clearMeta();
+        tx = Tx();
+        key = Script();
+        value = Script();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
@@ -187,15 +161,7 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i].derivationsLen = 0;
-            txInsMeta[i].signaturesLen = 0;
-        }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i].derivationsLen = 0;
-        }
+        initMeta();
         last_key_pos += key.length()+value.length();
     }
     uint8_t sections_number = 0;
@@ -527,78 +493,53 @@ size_t PSBT::length() const{
     return len;
 }
 
-PSBT::PSBT(PSBT const &other){
-    reset();
-    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
-    tx = other.tx;
-    status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-    for(size_t i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-        for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-            txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txInsMeta[i].derivations[j].derivation == NULL){
-                txInsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-        for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-            txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-        }
-    }
-    for(size_t i=0; i<tx.outputsNumber; i++){
-        txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-        for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-            txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txOutsMeta[i].derivations[j].derivation == NULL){
-                txOutsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-    }
+PSBT::PSBT(PSBT const &other) : PSBT(){
+    *this = other;
 }
 
-PSBT::~PSBT(){
-    // free memory
-    if(tx.inputsNumber > 0){
+void PSBT::clearMeta(){
+    if(txInsMeta != NULL){
         for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
+            for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
+                free(txInsMeta[i].derivations[j].derivation);
             }
+            delete [] txInsMeta[i].derivations;
+            delete [] txInsMeta[i].signatures;
         }
         delete [] txInsMeta;
+        txInsMeta = NULL;
     }
-    if(tx.outputsNumber > 0){
+    if(txOutsMeta != NULL){
         for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
+            for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
+                free(txOutsMeta[i].derivations[j].derivation);
             }
+            delete [] txOutsMeta[i].derivations;
         }
         delete [] txOutsMeta;
+        txOutsMeta = NULL;
+    }
+}
+
+void PSBT::initMeta(){
+    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    for(size_t i=0; i<tx.inputsNumber; i++){
+        txInsMeta[i].derivations = NULL;
+        txInsMeta[i].derivationsLen = 0;
+        txInsMeta[i].signatures = NULL;
+        txInsMeta[i].signaturesLen = 0;
+    }
+    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    for(size_t i=0; i<tx.outputsNumber; i++){
+        txOutsMeta[i].derivations = NULL;
+        txOutsMeta[i].derivationsLen = 0;
     }
 }
 
+PSBT::~PSBT(){
+    clearMeta();
+}
+
 uint8_t PSBT::sign(const HDPrivateKey root){
     uint8_t fingerprint[4];
     root.fingerprint(fingerprint);
@@ -737,80 +678,54 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
     return mine;
 }
 
+// deep copy of the derivations
+static PSBTDerivation * copyDerivations(const PSBTDerivation * other, size_t len){
+    if(len == 0){
+        return NULL;
+    }
+    PSBTDerivation * res = new PSBTDerivation[len];
+    for(size_t j=0; j<len; j++){
+        res[j] = other[j];
+        res[j].derivation = (uint32_t *)calloc(other[j].derivationLen, sizeof(uint32_t));
+        if(res[j].derivation == NULL){
+            res[j].derivationLen = 0;
+        }else{
+            memcpy(res[j].derivation, other[j].derivation, other[j].derivationLen*sizeof(uint32_t));
+        }
+    }
+    return res;
+}
+
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
     // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
+    clearMeta();
     // copy
     tx = other.tx;
     status = other.status;
-    if(tx.inputsNumber > 0){
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i] = other.txInsMeta[i];
-            if(txInsMeta[i].derivationsLen > 0){
-                txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-                    txInsMeta[i].derivations[j].derivation = (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                    if(txInsMeta[i].derivations[j].derivation == NULL){
-                        txInsMeta[i].derivations[j].derivationLen = 0;
-                    }else{
-                        memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                    }
-                }
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-                for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-                    txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-                }
-            }
-        }
+    if(other.txInsMeta == NULL || other.txOutsMeta == NULL){ // nothing else is there yet
+        return *this;
     }
-    if(tx.outputsNumber > 0){
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-            for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-                txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                if(txOutsMeta[i].derivations[j].derivation == NULL){
-                    txOutsMeta[i].derivations[j].derivationLen = 0;
-                }else{
-                    memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                }
+    initMeta();
+    for(size_t i=0; i<tx.inputsNumber; i++){
+        txInsMeta[i].txOut = other.txInsMeta[i].txOut;
+        txInsMeta[i].redeemScript = other.txInsMeta[i].redeemScript;
+        txInsMeta[i].witnessScript = other.txInsMeta[i].witnessScript;
+        txInsMeta[i].derivations = copyDerivations(other.txInsMeta[i].derivations, other.txInsMeta[i].derivationsLen);
+        txInsMeta[i].derivationsLen = other.txInsMeta[i].derivationsLen;
+        if(other.txInsMeta[i].signaturesLen > 0){
+            txInsMeta[i].signatures = new PSBTPartialSignature[other.txInsMeta[i].signaturesLen];
+            txInsMeta[i].signaturesLen = other.txInsMeta[i].signaturesLen;
+            for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
+                txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
             }
         }
     }
+    for(size_t i=0; i<tx.outputsNumber; i++){
+        txOutsMeta[i].redeemScript = other.txOutsMeta[i].redeemScript;
+        txOutsMeta[i].witnessScript = other.txOutsMeta[i].witnessScript;
+        txOutsMeta[i].derivations = copyDerivations(other.txOutsMeta[i].derivations, other.txOutsMeta[i].derivationsLen);
+        txOutsMeta[i].derivationsLen = other.txOutsMeta[i].derivationsLen;
+    }
     return *this;
 }
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..e7d4e2f 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -74,6 +74,8 @@ protected:
     Script value; // value for parsing
     uint8_t current_section;
     size_t last_key_pos;
+    void clearMeta(); // frees all input and output metadata
+    void initMeta(); // allocates empty metadata for every input and output of the tx
 public:
     virtual size_t length() const;
     PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 83c43fa..fecabe5 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -212,23 +212,8 @@ void Tx::init(){
 Tx::Tx(){
     init();
 }
-Tx::Tx(const Tx & other){
-    init();
-    version = other.version;
-    inputsNumber = other.inputsNumber;
-    outputsNumber = other.outputsNumber;
-    txIns = new TxIn[inputsNumber];
-    txOuts = new TxOut[outputsNumber];
-    for(unsigned int i=0;i<inputsNumber;i++){
-        txIns[i] = other.txIns[i];
-    }
-    for(unsigned int i=0;i<outputsNumber;i++){
-        txOuts[i] = other.txOuts[i];
-    }
-    locktime = other.locktime;
-    segwit_flag = other.segwit_flag;
-    status = other.status;
-    bytes_parsed = other.bytes_parsed;
+Tx::Tx(const Tx & other) : Tx(){
+    *this = other;
 }
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
-- 
2.43.0


From 4958483e5b59d759981e5fc873b66c3ed8bd92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:09 +0000
Subject: [PATCH 10/59] fix: PSBT parsing depended on how the data was split
 into chunks and on the length of the transaction

---
 src/PSBT.cpp | 56 +++++++++++++++++++++-------------------------------
 src/PSBT.h   |  4 ++--
 2 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index fe30d6f..f88546c 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -112,12 +112,16 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
+    if(bytes_read+bytes_parsed < 5){ // prefix is not complete yet
+        bytes_parsed += bytes_read;
+        return bytes_read;
+    }
     // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
+    if(bytes_read+bytes_parsed == 5){
         bytes_read += s->parse(&key);
         bytes_read += s->parse(&value);
     }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
+    while(last_key_pos == 5 && s->available() && key.getStatus() == PARSING_INCOMPLETE){
         bytes_read += s->parse(&key);
     }
     if(key.getStatus() == PARSING_FAILED){
@@ -126,7 +130,7 @@ size_t PSBT::from_stream(ParseStream *s){
         bytes_parsed += bytes_read;
         return bytes_read;
     }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
+    while(last_key_pos == 5 && s->available() && value.getStatus() == PARSING_INCOMPLETE){
         bytes_read += s->parse(&value);
     }
     if(value.getStatus() == PARSING_FAILED){
@@ -136,41 +140,31 @@ size_t PSBT::from_stream(ParseStream *s){
         return bytes_read;
     }
     if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
-        uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        key.serialize(arr, key.length());
-        if(key.length() != 2 || arr[0] != 1 || arr[1] != 0){
+        if(key.scriptLen != 1 || key.scriptArray[0] != 0){
             status = PARSING_FAILED;
             ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
+        size_t l = tx.parse(value.scriptArray, value.scriptLen);
+        if(tx.getStatus() != PARSING_DONE || l != value.scriptLen){
+            tx = Tx();
             status = PARSING_FAILED;
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
+            ubtc_errno = UBTC_ERR_PSBT_TX;
             bytes_parsed += bytes_read;
             return bytes_read;
         }
         initMeta();
         last_key_pos += key.length()+value.length();
     }
-    uint8_t sections_number = 0;
+    size_t sections_number = 0;
     if(last_key_pos > 5){ // tx is already parsed
         sections_number = 1+tx.inputsNumber+tx.outputsNumber;
     }
     // parsing keys and values
     while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+        // if the value is incomplete we already have the key
+        if(value.getStatus() == PARSING_DONE){
             bytes_read += s->parse(&key);
         }
         if(key.getStatus() == PARSING_DONE){
@@ -188,12 +182,6 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
-        }
         if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
             int res = add(current_section, &key, &value);
             if(res < 0){
@@ -214,7 +202,7 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
-int PSBT::add(uint8_t section, const Script * k, const Script * v){
+int PSBT::add(size_t section, const Script * k, const Script * v){
     if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
@@ -228,7 +216,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
-        uint8_t input = section-1;
+        size_t input = section-1;
         switch(key_code){
             case 0: { // PSBT_IN_NON_WITNESS_UTXO
                 // we need to verify that tx hashes to prevtx_hash
@@ -368,7 +356,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
         }
     }else{ // output section
-        uint8_t output = section-1-tx.inputsNumber;
+        size_t output = section-1-tx.inputsNumber;
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
@@ -447,11 +435,11 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t section = 0;
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
-            uint8_t input = section-1;
+            size_t input = section-1;
             for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
@@ -482,7 +470,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
diff --git a/src/PSBT.h b/src/PSBT.h
index e7d4e2f..a15462c 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -72,7 +72,7 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     Script key; // key for parsing
     Script value; // value for parsing
-    uint8_t current_section;
+    size_t current_section;
     size_t last_key_pos;
     void clearMeta(); // frees all input and output metadata
     void initMeta(); // allocates empty metadata for every input and output of the tx
@@ -86,7 +86,7 @@ public:
     PSBTOutputMetadata * txOutsMeta;
 
     /** \brief adds key-value pair to section */
-    int add(uint8_t section, const Script * k, const Script * v);
+    int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
     uint8_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
-- 
2.43.0


From f5e661d41d1da91d4e69ccc57f0146d60a15dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:11 +0000
Subject: [PATCH 11/59] fix: PSBT serialization repeated separators when
 resumed at an offset

---
 src/PSBT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index f88546c..69774e8 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -461,8 +461,10 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){ // separator
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
-- 
2.43.0


From 83c8166d9e8791639b10ce83665d416b14131898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:12 +0000
Subject: [PATCH 12/59] fix: PSBT::add leaked on errors, misread long values
 and accepted malformed ones

---
 src/PSBT.cpp | 156 +++++++++++++++++++++++----------------------------
 1 file changed, 70 insertions(+), 86 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 69774e8..4524149 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -202,17 +202,43 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
+// appends derivation information to the list
+static int addDerivation(PSBTDerivation ** derivations, uint8_t * derivationsLen, const Script * k, const Script * v){
+    PSBTDerivation der;
+    size_t l = der.pubkey.parse(k->scriptArray+1, k->scriptLen-1);
+    if(der.pubkey.getStatus() != PARSING_DONE || l != k->scriptLen-1){
+        return -1;
+    }
+    // fingerprint and up to 255 indexes
+    if(v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen > 4*(1+255) || *derivationsLen == 255){
+        return -2;
+    }
+    memcpy(der.fingerprint, v->scriptArray, 4);
+    der.derivationLen = v->scriptLen/4-1;
+    PSBTDerivation * p = new PSBTDerivation[*derivationsLen+1];
+    for(size_t i=0; i<*derivationsLen; i++){
+        p[i] = (*derivations)[i];
+    }
+    der.derivation = (uint32_t *)calloc(der.derivationLen, sizeof(uint32_t));
+    if(der.derivation == NULL){ delete [] p; return -1; }
+    for(size_t i=0; i<der.derivationLen; i++){
+        der.derivation[i] = littleEndianToInt(v->scriptArray+4*(i+1),4);
+    }
+    p[*derivationsLen] = der;
+    delete [] *derivations;
+    *derivations = p;
+    (*derivationsLen)++;
+    return 1;
+}
+
 int PSBT::add(size_t section, const Script * k, const Script * v){
-    if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
+    if(section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
-    uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
-    if(key_arr == NULL){ return 0; }
-    k->serialize(key_arr, k->length());
-    uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
-    if(val_arr == NULL){ free(key_arr); return 0; }
-    v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    if(txInsMeta == NULL || txOutsMeta == NULL || k->scriptLen == 0){
+        return -1;
+    }
+    uint8_t key_code = k->scriptArray[0];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
@@ -226,8 +252,8 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(tempTx.getStatus() != PARSING_DONE){
+                size_t l = tempTx.parse(v->scriptArray, v->scriptLen);
+                if(tempTx.getStatus() != PARSING_DONE || l != v->scriptLen){
                     res = -2;
                     break;
                 }
@@ -242,6 +268,10 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 txInsMeta[input].txOut = tempTx.txOuts[tx.txIns[input].outputIndex];
+                if(txInsMeta[input].txOut.scriptPubkey != tempTx.txOuts[tx.txIns[input].outputIndex].scriptPubkey){ // out of memory
+                    res = -2;
+                    break;
+                }
                 res = 1;
                 break;
             }
@@ -250,8 +280,8 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
+                size_t l = txInsMeta[input].txOut.parse(v->scriptArray, v->scriptLen);
+                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE || l != v->scriptLen){
                     res = -2;
                     break;
                 }
@@ -264,20 +294,26 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 PSBTPartialSignature psig;
-                psig.pubkey.parse(key_arr+2, k->length()-2);
-                if(psig.pubkey.getStatus() != PARSING_DONE){
+                size_t l = psig.pubkey.parse(k->scriptArray+1, k->scriptLen-1);
+                if(psig.pubkey.getStatus() != PARSING_DONE || l != k->scriptLen-1){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(val_arr+1, v->length()-1);
+                psig.signature.parse(v->scriptArray, v->scriptLen);
                 if(psig.signature.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
                 }
-                if(txInsMeta[input].signaturesLen == 0){
-                    txInsMeta[input].signaturesLen = 1;
-                    txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
-                }else{
+                // there can be only one signature per public key
+                size_t idx = 0;
+                while(idx<txInsMeta[input].signaturesLen && txInsMeta[input].signatures[idx].pubkey != psig.pubkey){
+                    idx++;
+                }
+                if(idx == txInsMeta[input].signaturesLen){
+                    if(txInsMeta[input].signaturesLen == 255){
+                        res = -2;
+                        break;
+                    }
                     PSBTPartialSignature * p = txInsMeta[input].signatures;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen+1];
                     for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
@@ -286,7 +322,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     txInsMeta[input].signaturesLen++;
                     delete [] p;
                 }
-                txInsMeta[input].signatures[txInsMeta[input].signaturesLen-1] = psig;
+                txInsMeta[input].signatures[idx] = psig;
                 res = 1;
                 break;
             }
@@ -299,8 +335,8 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].redeemScript.parse(val_arr, v->length());
-                res = 1;
+                txInsMeta[input].redeemScript = *v;
+                res = (txInsMeta[input].redeemScript == *v) ? 1 : -2;
                 break;
             }
             case 5: { // PSBT_IN_WITNESS_SCRIPT
@@ -308,42 +344,16 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].witnessScript.parse(val_arr, v->length());
-                res = 1;
+                txInsMeta[input].witnessScript = *v;
+                res = (txInsMeta[input].witnessScript == *v) ? 1 : -2;
                 break;
             }
             case 6: { // PSBT_IN_BIP32_DERIVATION
-                // TODO: move to function
                 if(k->length() != 35 && k->length() != 67){
                     res = -1;
                     break;
                 }
-                if(txInsMeta[input].derivationsLen == 0){
-                    txInsMeta[input].derivationsLen = 1;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txInsMeta[input].derivations;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen+1];
-                    for(size_t i=0; i<txInsMeta[input].derivationsLen; i++){
-                        txInsMeta[input].derivations[i] = p[i];
-                    }
-                    txInsMeta[input].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txInsMeta[input].derivations, &txInsMeta[input].derivationsLen, k, v);
                 break;
             }
             case 7: { // PSBT_IN_FINAL_SCRIPTSIG
@@ -360,58 +370,32 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
-                txOutsMeta[output].redeemScript.parse(val_arr, v->length());
-                res = 1;
+                txOutsMeta[output].redeemScript = *v;
+                res = (txOutsMeta[output].redeemScript == *v) ? 1 : -2;
                 break;
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
-                txOutsMeta[output].witnessScript.parse(val_arr, v->length());
-                res = 1;
+                txOutsMeta[output].witnessScript = *v;
+                res = (txOutsMeta[output].witnessScript == *v) ? 1 : -2;
                 break;
             }
             case 2: { // PSBT_OUT_BIP32_DERIVATION
-                // TODO: move to function
                 if(k->length() != 35 && k->length() != 67){
                     res = -1;
                     break;
                 }
-                if(txOutsMeta[output].derivationsLen == 0){
-                    txOutsMeta[output].derivationsLen = 1;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txOutsMeta[output].derivations;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen+1];
-                    for(int i=0; i<txOutsMeta[output].derivationsLen; i++){
-                        txOutsMeta[output].derivations[i] = p[i];
-                    }
-                    txOutsMeta[output].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txOutsMeta[output].derivations, &txOutsMeta[output].derivationsLen, k, v);
                 break;
             }
         }
     }
-    free(key_arr);
-    free(val_arr);
     return res; // by default - ignore the key-value pair
 }
 
-- 
2.43.0


From e5b907e4df1d16cd56098fbd4f1b26598216a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:14 +0000
Subject: [PATCH 13/59] fix: PSBT signing read past short derivation paths and
 counted signatures it could not add

---
 src/PSBT.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 4524149..9b773c5 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -541,7 +541,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
@@ -584,8 +584,9 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                         varr[len] = SIGHASH_ALL;
                         Script val;
                         val.parse(varr, len+1);
-                        add(i+1, &k, &val);
-                        counter++; // can sign
+                        if(add(i+1, &k, &val) > 0){
+                            counter++; // can sign
+                        }
                     }
                 }
             }
-- 
2.43.0


From a7a56e57a5f1df3634bf73076ca176b6437b189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:45 +0000
Subject: [PATCH 14/59] fix: Electrum parsing hung on an invalid key, copies
 lost the segwit flag

---
 src/Electrum.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 13bdd26..dd4b13e 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -1,24 +1,19 @@
 #include "Electrum.h"
 
-ElectrumTx::ElectrumTx(ElectrumTx const &other){
-    tx = other.tx;
-    is_segwit = false;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-    }
-    status = other.status;
-    bytes_parsed = other.bytes_parsed;
+ElectrumTx::ElectrumTx(ElectrumTx const &other) : ElectrumTx(){
+    *this = other;
 }
 ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     if (this == &other){ return *this; } // self-assignment
-    if(tx.inputsNumber > 0){
-        delete [] txInsMeta;
-    }
+    delete [] txInsMeta;
+    txInsMeta = NULL;
     tx = other.tx;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    if(other.txInsMeta != NULL){
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
@@ -30,9 +25,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        if(tx.inputsNumber > 0){
-            delete [] txInsMeta;
-        }
+        delete [] txInsMeta;
         txInsMeta = NULL;
         tx = Tx();
         bytes_parsed = 0;
@@ -53,10 +46,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
     if(!is_segwit && s->available() && status == PARSING_INCOMPLETE && tx.getStatus() != PARSING_FAILED){
         bytes_read += s->parse(&tx);
         if(tx.getStatus() == PARSING_DONE){
-            status = PARSING_DONE;
             is_segwit = false;
             txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+            status = PARSING_DONE;
             for(unsigned i=0; i<tx.inputsNumber; i++){
+                txInsMeta[i].amount = 0; // not known for legacy inputs
                 if(tx.txIns[i].scriptSig.length() != 88){ // no idea how to parse other things
                     status = PARSING_FAILED;
                     bytes_parsed+=bytes_read;
@@ -118,6 +112,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             start += 7;
             while(s->available() && bytes_parsed+bytes_read < start + 78){
                 bytes_read+=s->parse(&txInsMeta[i].hd);
+                if(txInsMeta[i].hd.getStatus() == PARSING_FAILED){
+                    status = PARSING_FAILED;
+                    bytes_parsed += bytes_read;
+                    return bytes_read;
+                }
             }
             start += 78;
             while(s->available() && bytes_parsed+bytes_read < start + 4){
-- 
2.43.0


From 332e277ffa2bb18ac0d03177c9f036bcaf9425f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 15/59] fix: DER signatures could not be parsed in chunks,
 total length was not checked

---
 src/Bitcoin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..2499caf 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -174,7 +174,7 @@ size_t Signature::from_stream(ParseStream *stream){
         r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
         bytes_read++;
     }
-    if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
+    if(bytes_parsed+bytes_read >= 4 && bytes_parsed+bytes_read >= (size_t)4+tot[1] && rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
     // s
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
         c = stream->read();
@@ -184,7 +184,7 @@ size_t Signature::from_stream(ParseStream *stream){
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2){
         tot[2] = stream->read();
         bytes_read++;
-        if(tot[2] > 33){ status = PARSING_FAILED; return bytes_read; }
+        if(tot[2] > 33 || tot[0] != 4+tot[1]+tot[2]){ status = PARSING_FAILED; return bytes_read; }
     }
     if(stream->available() && tot[2]==33 && bytes_parsed+bytes_read < (size_t)4+tot[1]+3){
         c = stream->read();
@@ -195,8 +195,8 @@ size_t Signature::from_stream(ParseStream *stream){
         s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
         bytes_read++;
     }
-    if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
-    if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
+    if(bytes_parsed+bytes_read >= (size_t)4+tot[1]+2 && bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
+        if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
         status = PARSING_DONE;
     }
     bytes_parsed+=bytes_read;
-- 
2.43.0


From 0cb68aa7759c57ffd9852ef0568a8adfc7ffd5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:08 +0000
Subject: [PATCH 16/59] fix: parsing several public keys at once mixed up their
 sign bytes

---
 src/BitcoinCurve.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..2d4254b 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -29,12 +28,12 @@ size_t ECPoint::from_stream(ParseStream *s){
 				bytes_parsed += bytes_read;
 				return bytes_read;
 			}
-			first_byte = c;
 			if(c == 0x04){ // uncompressed
 				bytes_to_read += 32;
 				compressed = false;
 			}else{
 				compressed = true;
+				point[63] = c; // keep the sign until the point is uncompressed
 			}
 		}
 	}
@@ -45,9 +44,9 @@ size_t ECPoint::from_stream(ParseStream *s){
 	if(bytes_to_read==0){
 		if(compressed){
 			uint8_t buf[33];
-			buf[0] = first_byte;
+			buf[0] = point[63];
 			memcpy(buf+1, point, 32);
-            uint8_t arr[65];
+            uint8_t arr[65] = { 0 };
             ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
             memcpy(point, arr+1, 64);
 		}
-- 
2.43.0


From 42fd8f2c5331cf4f4abeea50277102004d3037b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:10 +0000
Subject: [PATCH 17/59] fix: extended public keys with an invalid point were
 read from uninitialised memory

---
 src/HDWallet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..bc3c169 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -645,8 +645,10 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         uint8_t arr[33];
         memcpy(arr, point, 33);
-        uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
+        uint8_t buf[65] = { 0 };
+        if(arr[0] == 0x02 || arr[0] == 0x03){
+            ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
+        }
         memcpy(point, buf+1, 64);
         if(!isValid()){
             status = PARSING_FAILED;
-- 
2.43.0


From 12c87b2d1d62b750defddac61bbe4ffdcecb9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:43 +0000
Subject: [PATCH 18/59] fix: private keys equal to the group order were
 accepted as valid zero keys

---
 src/Bitcoin.cpp      | 8 ++++----
 src/BitcoinCurve.cpp | 8 ++++----
 src/HDWallet.cpp     | 9 +++++----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 2499caf..bbcc710 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -487,14 +487,14 @@ size_t PrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 32){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
         bn_mod(&n, &secp256k1.order);
         bn_write_be(&n, num);
+        uint8_t zero[32] = { 0 };
+        if(memcmp(num, zero, 32)==0){ // should we add something else here?
+            status = PARSING_FAILED;
+        }
         pubKey = *this * GeneratorPoint;
     }
     bytes_parsed += bytes_read;
diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 2d4254b..c840e9b 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -174,14 +174,14 @@ size_t ECScalar::from_stream(ParseStream *s){
 	}
 	if(bytes_parsed+bytes_read == 32){
 		status = PARSING_DONE;
-		uint8_t zero[32] = { 0 };
-		if(memcmp(num, zero, 32)==0){ // should we add something else here?
-		status = PARSING_FAILED;
-		}
 		bignum256 n;
 		bn_read_be(num, &n);
 		bn_mod(&n, &secp256k1.order);
 		bn_write_be(&n, num);
+		uint8_t zero[32] = { 0 };
+		if(memcmp(num, zero, 32)==0){ // should we add something else here?
+		status = PARSING_FAILED;
+		}
 	}
 	bytes_parsed += bytes_read;
 	return bytes_read;
diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index bc3c169..c024d08 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -214,14 +214,14 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 78){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
         bn_mod(&n, &secp256k1.order);
         bn_write_be(&n, num);
+        uint8_t zero[32] = { 0 };
+        if(memcmp(num, zero, 32)==0){ // should we add something else here?
+            status = PARSING_FAILED;
+        }
         pubKey = *this * GeneratorPoint;
         pubKey.compressed = true;
     }
@@ -658,6 +658,7 @@ size_t HDPublicKey::from_stream(ParseStream *s){
     return bytes_read;
 }
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
+    reset();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
     if(l == 0){
-- 
2.43.0


From f535b810ace1b993731136d3fb264c0e56c0358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:45 +0000
Subject: [PATCH 19/59] fix: private keys constructed from an invalid WIF had
 an uninitialised network

---
 src/Bitcoin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index bbcc710..5188e18 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -700,10 +700,14 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 PrivateKey::PrivateKey(const String wifString){
+    reset();
+    network = &DEFAULT_NETWORK;
     fromWIF(wifString.c_str());
 }
 #else
 PrivateKey::PrivateKey(const char * wifArr){
+    reset();
+    network = &DEFAULT_NETWORK;
     fromWIF(wifArr);
 }
 #endif
-- 
2.43.0


From fc2290b01c28e8dfc26dcd80083cdd0c2999cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:36 +0000
Subject: [PATCH 20/59] fix: wipe temporary buffers that can hold secrets
 before freeing them

---
 src/BaseClasses.cpp | 7 +++++++
 src/Conversion.cpp  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index f6dde6c..ddc7f1f 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -1,6 +1,7 @@
 #include "uBitcoin_conf.h"
 #include "BaseClasses.h"
 #include <cstdlib>
+#include "utility/trezor/memzero.h"
 
 #if USE_STD_STRING
 using std::string;
@@ -171,8 +172,10 @@ size_t SerializeByteStream::write(const uint8_t *arr, size_t length){
 size_t Readable::printTo(Print& p) const{
     size_t len = this->stringLength()+1;
     char * arr = (char *)calloc(len, sizeof(char));
+    if(arr == NULL){ return 0; }
     toString(arr, len);
     p.print(arr);
+    memzero(arr, len); // can be a secret
     free(arr);
     return len-1;
 }
@@ -181,8 +184,10 @@ size_t Readable::printTo(Print& p) const{
 String Readable::toString() const{
     size_t len = this->stringLength()+1;
     char * arr = (char *)calloc(len, sizeof(char));
+    if(arr == NULL){ return String(); }
     toString(arr, len);
     String s = arr;
+    memzero(arr, len); // can be a secret
     free(arr);
     return s;
 };
@@ -196,8 +201,10 @@ String Streamable::serialize(size_t offset, size_t len) const{
         len = (length()-offset);
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
+    if(arr == NULL){ return String(); }
     serialize(arr, 2*len, offset, HEX_ENCODING);
     String s = arr;
+    memzero(arr, 2*len+1); // can be a secret
     free(arr);
     return s;
 };
diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..f08b6fd 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -324,6 +324,7 @@ String toBase58(const uint8_t * array, size_t arraySize){
     if(buf == NULL){ return String(); }
     toBase58(array, arraySize, buf, len);
     String result(buf);
+    memzero(buf, len); // secret should not stay in RAM
     free(buf);
     return result;
 }
@@ -352,6 +353,7 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
     String result(buf);
+    memzero(buf, len); // secret should not stay in RAM
     free(buf);
     return result;
 }
@@ -403,6 +405,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
                 tmp[size-j-1] = cur%256;
             }
         }else{
+            memzero(tmp, size); // secret should not stay in RAM
             free(tmp);
             return 0;
         }
@@ -417,10 +420,12 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     if(size-shift > outputSize){
+        memzero(tmp, size); // secret should not stay in RAM
         free(tmp);
         return 0;
     }
     memcpy(output, tmp+shift, size-shift);
+    memzero(tmp, size); // secret should not stay in RAM
     free(tmp);
     return size-shift;
 }
@@ -431,6 +436,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     if(arr == NULL){ return 0; }
     size_t l = fromBase58(encoded, encodedSize, arr, outputSize+4);
     if(l<4){
+        memzero(arr, outputSize+4); // secret should not stay in RAM
         free(arr);
         return 0;
     }
@@ -438,6 +444,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     uint8_t hash[32];
     doubleSha(arr, l-4, hash);
     if(memcmp(arr+l-4, hash, 4)!=0){
+        memzero(arr, outputSize+4); // secret should not stay in RAM
         free(arr);
         return 0;
     }
-- 
2.43.0


From 6429c5e7393442da3e9745aec7f5156dbbb7bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:37 +0000
Subject: [PATCH 21/59] fix: keep scratch memory of hmac and ecdsa on the
 stack, shared static buffers mixed up concurrent tasks

---
 src/utility/trezor/bip39.c |  2 +-
 src/utility/trezor/ecdsa.c |  8 ++++----
 src/utility/trezor/hmac.c  | 14 +++++++-------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..4c3b6fd 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -205,7 +205,7 @@ void mnemonic_to_seed(const char *mnemonic, const char *passphrase, uint8_t seed
 	uint8_t salt[8 + 256];
 	memcpy(salt, "mnemonic", 8);
 	memcpy(salt + 8, passphrase, passphraselen);
-	static CONFIDENTIAL PBKDF2_HMAC_SHA512_CTX pctx;
+	CONFIDENTIAL PBKDF2_HMAC_SHA512_CTX pctx;
 	pbkdf2_hmac_sha512_Init(&pctx, (const uint8_t *)mnemonic, mnemoniclen, salt, passphraselen + 8, 1);
 	if (progress_callback) {
 		progress_callback(0, BIP39_PBKDF2_ROUNDS);
diff --git a/src/utility/trezor/ecdsa.c b/src/utility/trezor/ecdsa.c
index b123b91..eb47d40 100755
--- a/src/utility/trezor/ecdsa.c
+++ b/src/utility/trezor/ecdsa.c
@@ -432,13 +432,13 @@ void point_multiply(const ecdsa_curve *curve, const bignum256 *k, const curve_po
 	assert (bn_is_less(k, &curve->order));
 
 	int i, j;
-	static CONFIDENTIAL bignum256 a;
+	CONFIDENTIAL bignum256 a;
 	uint32_t *aptr;
 	uint32_t abits;
 	int ashift;
 	uint32_t is_even = (k->val[0] & 1) - 1;
 	uint32_t bits, sign, nsign;
-	static CONFIDENTIAL jacobian_curve_point jres;
+	CONFIDENTIAL jacobian_curve_point jres;
 	curve_point pmult[8];
 	const bignum256 *prime = &curve->prime;
 
@@ -553,10 +553,10 @@ void scalar_multiply(const ecdsa_curve *curve, const bignum256 *k, curve_point *
 	assert (bn_is_less(k, &curve->order));
 
 	int i, j;
-	static CONFIDENTIAL bignum256 a;
+	CONFIDENTIAL bignum256 a;
 	uint32_t is_even = (k->val[0] & 1) - 1;
 	uint32_t lowbits;
-	static CONFIDENTIAL jacobian_curve_point jres;
+	CONFIDENTIAL jacobian_curve_point jres;
 	const bignum256 *prime = &curve->prime;
 
 	// is_even = 0xffffffff if k is even, 0 otherwise.
diff --git a/src/utility/trezor/hmac.c b/src/utility/trezor/hmac.c
index 832897e..0663420 100755
--- a/src/utility/trezor/hmac.c
+++ b/src/utility/trezor/hmac.c
@@ -32,7 +32,7 @@
 
 void ubtc_hmac_sha256_Init(HMAC_SHA256_CTX *hctx, const uint8_t *key, const uint32_t keylen)
 {
-	static CONFIDENTIAL uint8_t i_key_pad[SHA256_BLOCK_LENGTH];
+	CONFIDENTIAL uint8_t i_key_pad[SHA256_BLOCK_LENGTH];
 	memset(i_key_pad, 0, SHA256_BLOCK_LENGTH);
 	if (keylen > SHA256_BLOCK_LENGTH) {
 		sha256_Raw(key, keylen, i_key_pad);
@@ -65,7 +65,7 @@ void ubtc_hmac_sha256_Final(HMAC_SHA256_CTX *hctx, uint8_t *hmac)
 
 void ubtc_hmac_sha256(const uint8_t *key, const uint32_t keylen, const uint8_t *msg, const uint32_t msglen, uint8_t *hmac)
 {
-	static CONFIDENTIAL HMAC_SHA256_CTX hctx;
+	CONFIDENTIAL HMAC_SHA256_CTX hctx;
 	ubtc_hmac_sha256_Init(&hctx, key, keylen);
 	ubtc_hmac_sha256_Update(&hctx, msg, msglen);
 	ubtc_hmac_sha256_Final(&hctx, hmac);
@@ -73,11 +73,11 @@ void ubtc_hmac_sha256(const uint8_t *key, const uint32_t keylen, const uint8_t *
 
 void ubtc_hmac_sha256_prepare(const uint8_t *key, const uint32_t keylen, uint32_t *opad_digest, uint32_t *ipad_digest)
 {
-	static CONFIDENTIAL uint32_t key_pad[SHA256_BLOCK_LENGTH/sizeof(uint32_t)];
+	CONFIDENTIAL uint32_t key_pad[SHA256_BLOCK_LENGTH/sizeof(uint32_t)];
 
 	memzero(key_pad, sizeof(key_pad));
 	if (keylen > SHA256_BLOCK_LENGTH) {
-		static CONFIDENTIAL SHA256_CTX context;
+		CONFIDENTIAL SHA256_CTX context;
 		sha256_Init(&context);
 		sha256_Update(&context, key, keylen);
 		sha256_Final(&context, (uint8_t*)key_pad);
@@ -107,7 +107,7 @@ void ubtc_hmac_sha256_prepare(const uint8_t *key, const uint32_t keylen, uint32_
 
 void ubtc_hmac_sha512_Init(HMAC_SHA512_CTX *hctx, const uint8_t *key, const uint32_t keylen)
 {
-	static CONFIDENTIAL uint8_t i_key_pad[SHA512_BLOCK_LENGTH];
+	CONFIDENTIAL uint8_t i_key_pad[SHA512_BLOCK_LENGTH];
 	memset(i_key_pad, 0, SHA512_BLOCK_LENGTH);
 	if (keylen > SHA512_BLOCK_LENGTH) {
 		sha512_Raw(key, keylen, i_key_pad);
@@ -148,11 +148,11 @@ void ubtc_hmac_sha512(const uint8_t *key, const uint32_t keylen, const uint8_t *
 
 void ubtc_hmac_sha512_prepare(const uint8_t *key, const uint32_t keylen, uint64_t *opad_digest, uint64_t *ipad_digest)
 {
-	static CONFIDENTIAL uint64_t key_pad[SHA512_BLOCK_LENGTH/sizeof(uint64_t)];
+	CONFIDENTIAL uint64_t key_pad[SHA512_BLOCK_LENGTH/sizeof(uint64_t)];
 
 	memzero(key_pad, sizeof(key_pad));
 	if (keylen > SHA512_BLOCK_LENGTH) {
-		static CONFIDENTIAL SHA512_CTX context;
+		CONFIDENTIAL SHA512_CTX context;
 		sha512_Init(&context);
 		sha512_Update(&context, key, keylen);
 		sha512_Final(&context, (uint8_t*)key_pad);
-- 
2.43.0


From a38020105697e6a68c0b7d87fce15e4d79bfd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:16 +0000
Subject: [PATCH 22/59] fix: schnorr verification accepted negated s values and
 invalid R

---
 src/Bitcoin.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 5188e18..ec2c5e8 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -450,6 +450,14 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    if(R.getStatus() != PARSING_DONE){ // not a point on the curve
+        return false;
+    }
+    bignum256 n;
+    bn_read_be(rs+32, &n);
+    if(!bn_is_less(&n, &secp256k1.order)){
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -464,10 +472,8 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     tch.end(e);
     PrivateKey challenge(e);
     PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
     PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    return S == s.publicKey();
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From b49ceb1a49be526ae517690ea1c38dedafcc9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:17 +0000
Subject: [PATCH 23/59] fix: generated phrases of 15 and 21 words were rejected
 as invalid

---
 src/utility/trezor/bip39.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index 4c3b6fd..14cc6ff 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n != 12 && n != 15 && n != 18 && n != 21 && n != 24) {
 		return 0;
 	}
 
@@ -167,7 +167,7 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len != (12 * 11) && seed_len != (15 * 11) && seed_len != (18 * 11) && seed_len != (21 * 11) && seed_len != (24 * 11)) {
 		return 0;
 	}
 	int words = seed_len / 11;
@@ -176,8 +176,12 @@ int mnemonic_check(const char *mnemonic)
 	sha256_Raw(bits, words * 4 / 3, bits);
 	if (words == 12) {
 		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
+	} else if (words == 15) {
+		return (bits[0] & 0xF8) == (checksum & 0xF8); // compare first 5 bits
 	} else if (words == 18) {
 		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
+	} else if (words == 21) {
+		return (bits[0] & 0xFE) == (checksum & 0xFE); // compare first 7 bits
 	} else if (words == 24) {
 		return bits[0] == checksum; // compare 8 bits
 	}
-- 
2.43.0


From 7659a745af9cb1193af9c9864f3ac3d14657be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:02 +0000
Subject: [PATCH 24/59] fix: scripts and witnesses that ran out of memory
 misreported the number of bytes parsed

---
 src/Script.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4162ac4..c0664eb 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -289,7 +289,7 @@ size_t Script::from_stream(ParseStream *s){
             lenLen = 1+(1 << (lenLen - 0xfc));
             scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
         }
-        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
+        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; bytes_parsed+=bytes_read; return bytes_read; }
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
         scriptLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
@@ -298,7 +298,7 @@ size_t Script::from_stream(ParseStream *s){
     if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
         free(scriptArray);
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
+        if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; bytes_parsed+=bytes_read; return bytes_read; }
     }
     if(bytes_parsed+bytes_read == lenLen && lenVarInt(scriptLen) != lenLen){
         status = PARSING_FAILED;
@@ -616,11 +616,11 @@ size_t Witness::from_stream(ParseStream *s){
             if(witnessLen==0){
                 witnessLen = cur_element_len+lenVarInt(cur_element_len);
                 witnessArray = (uint8_t *)calloc(witnessLen, sizeof(uint8_t));
-                if(witnessArray == NULL){ witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(witnessArray == NULL){ witnessLen = 0; status=PARSING_FAILED; bytes_read+=cur_bytes_read; bytes_parsed+=bytes_read; return bytes_read;}
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; bytes_read+=cur_bytes_read; bytes_parsed+=bytes_read; return bytes_read;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
-- 
2.43.0


From 10b9b0611fe3b64d82403710ad77c0debe64809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:03 +0000
Subject: [PATCH 25/59] fix: Electrum transactions with a malformed witness
 were parsed from the wrong offset

---
 src/Electrum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index dd4b13e..a15d0a9 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -76,6 +76,12 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             for(unsigned int i=0; i<tx.inputsNumber; i++){
                 tx.txIns[i].witness = Witness();
             }
+            // it should be the very first byte of the witness that is not a witness
+            if(bytes_parsed+bytes_read != 6 + tx.length() + 2 - 4 + 1){
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             tx.setStatus(PARSING_DONE);
             tx.locktime = 0;
             is_segwit = true;
-- 
2.43.0


From 7924dd735571b5f4c435cabc7f7556e7e95a284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:30 +0000
Subject: [PATCH 26/59] fix: public keys derived bogus children for hardened
 indexes, so isMine() accepted outputs that are not the wallet's

---
 src/HDWallet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index c024d08..f41294d 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -778,6 +778,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX || !isValid()){ // no such child, return invalid key
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
-- 
2.43.0


From 9ba498b92629ea08c27b872c49856cd0b51d26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 27/59] fix: signature hashes covered an empty script when
 copying the script ran out of memory

---
 src/Bitcoin.h       |  4 ++--
 src/Transaction.cpp | 19 +++++++++----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2fcc15d..e10e3b9 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -705,12 +705,12 @@ public:
     uint8_t addOutput(const TxOut txOut);
 
     /** \brief calculates a hash to sign for certain input */
-    int sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
+    int sigHash(uint8_t h[32], uint8_t inputIndex, const Script & scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
 
     int hashPrevouts(uint8_t h[32]) const;
     int hashSequence(uint8_t h[32]) const;
     int hashOutputs(uint8_t h[32]) const;
-    int sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash = SIGHASH_ALL) const;
+    int sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script & scriptPubKey, uint64_t amount, SigHashType sighash = SIGHASH_ALL) const;
 
 #if 0
     /** \brief sorts inputs and outputs in alphabetical order */
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index fecabe5..e234b3b 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -482,8 +482,8 @@ size_t Tx::from_stream(ParseStream *s){
     bytes_parsed+=bytes_read;
     return bytes_read;
 }
-int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
-    Script empty;
+int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script & scriptPubkey, SigHashType sighash) const{
+    const Script empty;
     DoubleSha s;
     s.begin();
 
@@ -494,13 +494,12 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, Si
     size_t l = writeVarInt(inputsNumber, arr, 10);
     s.write(arr, l);
     for(size_t i=0; i<inputsNumber; i++){
-        TxIn t = txIns[i];
-        if(i == inputIndex){
-            t.scriptSig = scriptPubkey;
-        }else{
-            t.scriptSig = empty;
-        }
-        s.serialize(&t, 0);
+        s.write(txIns[i].hash, 32);
+        intToLittleEndian(txIns[i].outputIndex, arr, 4);
+        s.write(arr, 4);
+        s.serialize((i == inputIndex) ? &scriptPubkey : &empty, 0);
+        intToLittleEndian(txIns[i].sequence, arr, 4);
+        s.write(arr, 4);
     }
     l = writeVarInt(outputsNumber, arr, 10);
     s.write(arr, l);
@@ -654,7 +653,7 @@ int Tx::hashOutputs(uint8_t h[32]) const{
     return 32;
 }
 
-int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash) const{
+int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script & scriptPubKey, uint64_t amount, SigHashType sighash) const{
     DoubleSha s;
     s.begin();
     uint8_t arr[8];
-- 
2.43.0


From 61d73eee3939a1e6d547c76284b942249cc11caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:13 +0000
Subject: [PATCH 28/59] fix: scripts and witnesses were left incomplete when
 memory ran out while they were built or copied

---
 src/Bitcoin.h  |  8 ++++----
 src/Script.cpp | 55 +++++++++++++++++++++-----------------------------
 2 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index e10e3b9..4ef5762 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -524,7 +524,7 @@ public:
     /** \brief adds <len><der><sigType> to the script */
     size_t push(const Signature sig, SigHashType sigType = SIGHASH_ALL);
     /** \brief adds <len><script> to the script (used for P2SH) */
-    size_t push(const Script sc);
+    size_t push(const Script & sc);
 
     /** \brief returns scriptPubkey for this scripts (P2SH or P2WSH) */
     Script scriptPubkey(ScriptType type = P2SH) const;
@@ -541,8 +541,8 @@ Script pkh(PublicKey pub);
 Script wpkh(PublicKey pub);
 Script multi(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len);
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len);
-Script wsh(Script witness_script);
-Script sh(Script script);
+Script wsh(const Script & witness_script);
+Script sh(const Script & script);
 
 /**
  *  \brief Witness class. Has a form of `<num><e0><e1><e2>...` 
@@ -579,7 +579,7 @@ public:
     /** \brief adds `<len><der><sigType>` to the witness */
     size_t push(const Signature sig, SigHashType sigType = SIGHASH_ALL);
     /** \brief adds `<len><script>` to the witness */
-    size_t push(const Script sc);
+    size_t push(const Script & sc);
 
     Witness &operator=(Witness const &other); // assignment
     explicit operator bool() const{ return (numElements > 0); };
diff --git a/src/Script.cpp b/src/Script.cpp
index c0664eb..ccaa6e5 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -38,14 +38,15 @@ Script multi(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
         return sc;
     }
     // OP_M
-    sc.push(OP_1+threshold-1);
+    bool ok = sc.push(OP_1+threshold-1) > 0;
     // pubkeys
     for(int i=0; i<pubkeys_len; i++){
-        sc.push(pubkeys[i]);
+        ok = ok && sc.push(pubkeys[i]) > 0;
     }
     // OP_N OP_CHECKMULTISIG
-    sc.push(OP_1+pubkeys_len-1);
-    sc.push(OP_CHECKMULTISIG);
+    ok = ok && sc.push(OP_1+pubkeys_len-1) > 0;
+    ok = ok && sc.push(OP_CHECKMULTISIG) > 0;
+    if(!ok){ sc.clear(); } // out of memory
     return sc;
 }
 
@@ -109,14 +110,14 @@ Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-Script wsh(Script witness_script){
+Script wsh(const Script & witness_script){
     // 00 20 sha256(script.data)
     uint8_t buffer[] = { 0x00, 0x20, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
     sha256(witness_script.scriptArray, witness_script.scriptLen, buffer+2);
     return Script(buffer, sizeof(buffer));
 }
 
-Script sh(Script script){
+Script sh(const Script & script){
     // "a9 14" + hash160(script.data) + "87"
     uint8_t buffer[] = { 0xa9, 0x14, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0x87 };
     hash160(script.scriptArray, script.scriptLen, buffer+2);
@@ -459,25 +460,23 @@ size_t Script::push(const uint8_t * data, size_t len){
     return scriptLen;
 }
 size_t Script::push(const PublicKey pubkey){
-    uint8_t sec[65];
-    uint8_t len = pubkey.sec(sec, sizeof(sec));
-    push(len);
-    push(sec, len);
-    return scriptLen;
+    uint8_t arr[66];
+    uint8_t len = pubkey.sec(arr+1, sizeof(arr)-1);
+    arr[0] = len;
+    return push(arr, len+1);
 }
 size_t Script::push(const Signature sig, SigHashType sigType){
-    uint8_t der[75];
-    uint8_t len = sig.der(der, sizeof(der));
-    push(len+1);
-    push(der, len);
-    push(sigType);
-    return scriptLen;
+    uint8_t arr[77];
+    uint8_t len = sig.der(arr+1, sizeof(arr)-2);
+    arr[0] = len+1;
+    arr[len+1] = sigType;
+    return push(arr, len+2);
 }
-size_t Script::push(const Script sc){
+size_t Script::push(const Script & sc){
     size_t len = sc.length();
     uint8_t * tmp;
     tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
+    if(tmp == NULL){ clear(); return 0; }
     sc.serialize(tmp, len);
     push(tmp, len);
     free(tmp);
@@ -680,7 +679,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
-    memcpy(witnessArray + witnessLen + lenVarInt(len), data, len);
+    if(len > 0){ memcpy(witnessArray + witnessLen + lenVarInt(len), data, len); }
     witnessLen += len+lenVarInt(len);
     numElements++;
     return witnessLen;
@@ -698,16 +697,8 @@ size_t Witness::push(const Signature sig, SigHashType sigType){
     push(der, len+1);
     return witnessLen;
 }
-size_t Witness::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    size_t l = sc.serialize(tmp, len);
-    size_t dl = readVarInt(tmp, len);
-    push(tmp+l-dl, dl);
-    free(tmp);
-    return witnessLen;
+size_t Witness::push(const Script & sc){
+    return push(sc.scriptArray, sc.scriptLen);
 }
 Witness::Witness(const Witness &other){
     init();
@@ -715,7 +706,7 @@ Witness::Witness(const Witness &other){
     if(other.witnessLen > 0){
         witnessLen = other.witnessLen;
         witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return;}
+        if(witnessArray == NULL){ witnessLen = 0; numElements = 0; return;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
 };
@@ -726,7 +717,7 @@ Witness &Witness::operator=(Witness const &other){
     if(other.witnessLen > 0){
         witnessLen = other.witnessLen;
         witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return *this;}
+        if(witnessArray == NULL){ witnessLen = 0; numElements = 0; return *this;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
     return *this;
-- 
2.43.0


From af4ef00591653127f66cdccf5667cf1b17c8a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:55 +0000
Subject: [PATCH 29/59] fix: signing with too little memory left half-signed
 inputs and counted them as signed

---
 src/Bitcoin.h       |  4 ++--
 src/Electrum.cpp    |  9 ++++++---
 src/PSBT.cpp        |  8 ++++++--
 src/Transaction.cpp | 39 ++++++++++++++++++++++++++++++---------
 4 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 4ef5762..b8e24a9 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -721,7 +721,7 @@ public:
      *         Don't forget to construct txIns[i].scriptSig correctly if you are using P2SH.
      *         For P2WPKH, P2WSH and P2SH-P2WPKH use signSegwitInput method.
      */
-    Signature signInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash = SIGHASH_ALL);
+    Signature signInput(uint8_t inputIndex, const PrivateKey pk, const Script & redeemScript, SigHashType sighash = SIGHASH_ALL);
     /** \brief signs legacy input and returns a signature */
     Signature signInput(uint8_t inputIndex, const PrivateKey pk){
         return signInput(inputIndex, pk, Script(pk.publicKey(), P2PKH));
@@ -731,7 +731,7 @@ public:
      *         Don't forget to construct txIns[i].witness correctly if you are using P2WSH or P2SH-P2WSH.
      *         For P2PKH and P2SH use signInput method.
      */
-    Signature signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type = P2WSH, SigHashType sighash = SIGHASH_ALL);
+    Signature signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script & redeemScript, uint64_t amount, ScriptType type = P2WSH, SigHashType sighash = SIGHASH_ALL);
     /** \brief signs segwit input and returns a signature. Uses native segwit (P2WPKH) by default, 
      *         you can also specify the type to be P2SH-P2WPKH to sign nested segwit transaction.
      */
diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index a15d0a9..5705838 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -157,12 +157,15 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
         pub.type = type;
         if(pub == txInsMeta[i].hd){
             PrivateKey pk = account.child(txInsMeta[i].derivation[0]).child(txInsMeta[i].derivation[1]);
+            Signature sig;
             if(type == P2PKH || type == P2SH || type == UNKNOWN_TYPE || type == DIRECT_SCRIPT){
-                tx.signInput(i, pk);
+                sig = tx.signInput(i, pk);
             }else{
-                tx.signSegwitInput(i, pk, txInsMeta[i].amount, type);
+                sig = tx.signSegwitInput(i, pk, txInsMeta[i].amount, type);
+            }
+            if(sig){ // otherwise out of memory
+                res++;
             }
-            res++;
         }
     }
     return res;
diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 9b773c5..11a9381 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -549,20 +549,24 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     if(txInsMeta[i].derivations[j].pubkey == pk.publicKey()){
                         // can sign - let's sign
                         uint8_t h[32];
+                        const Script pkh = pk.publicKey().script();
+                        if(!pkh){ // out of memory
+                            continue;
+                        }
                         if(txInsMeta[i].witnessScript.length() > 1){ // P2WSH / P2SH_P2WSH
                             tx.sigHashSegwit(h, i, txInsMeta[i].witnessScript, txInsMeta[i].txOut.amount);
                         }else{
                             if(txInsMeta[i].redeemScript.length() > 1){
                                 if(txInsMeta[i].redeemScript.type() == P2WPKH){ // P2SH_P2WPKH
                                     // tx.sigHashSegwit(h, i, txInsMeta[i].redeemScript, txInsMeta[i].txOut.amount);
-                                    tx.sigHashSegwit(h, i, pk.publicKey().script(), txInsMeta[i].txOut.amount);
+                                    tx.sigHashSegwit(h, i, pkh, txInsMeta[i].txOut.amount);
                                 }else{ // P2SH
                                     tx.sigHash(h, i, txInsMeta[i].redeemScript);
                                 }
                             }else{ // P2WPKH / P2PKH / DIRECT_SCRIPT
                                 if(txInsMeta[i].txOut.scriptPubkey.type() == P2WPKH){
                                     // tx.sigHashSegwit(h, i, txInsMeta[i].txOut.scriptPubkey, txInsMeta[i].txOut.amount);
-                                    tx.sigHashSegwit(h, i, pk.publicKey().script(), txInsMeta[i].txOut.amount);
+                                    tx.sigHashSegwit(h, i, pkh, txInsMeta[i].txOut.amount);
                                 }else{ // P2PKH / DIRECT_SCRIPT
                                     tx.sigHash(h, i, txInsMeta[i].txOut.scriptPubkey);
                                 }
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index e234b3b..c4e9673 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -688,7 +688,10 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script & scriptPu
     return 32;
 }
 
-Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash){
+Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script & redeemScript, SigHashType sighash){
+    if(!redeemScript){ // out of memory
+        return Signature();
+    }
     uint8_t h[32];
     sigHash(h, inputIndex, redeemScript, sighash);
 
@@ -696,23 +699,33 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
     Signature sig = pk.sign(h);
 
     Script sc;
-    sc.push(sig);
-    sc.push(pubkey);
+    bool ok = sc.push(sig) > 0;
+    ok = ok && sc.push(pubkey) > 0;
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
-        sc.push(redeemScript);
+        ok = ok && sc.push(redeemScript) > 0;
     }
+    if(!ok){ sc.clear(); } // out of memory
 
     txIns[inputIndex].scriptSig = sc;
+    if(!txIns[inputIndex].scriptSig){ // out of memory, not signed
+        return Signature();
+    }
 
     return sig;
 }
-Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type, SigHashType sighash){
+Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script & redeemScript, uint64_t amount, ScriptType type, SigHashType sighash){
     uint8_t h[32];
 
+    if(!redeemScript){ // out of memory
+        return Signature();
+    }
     ScriptType redeem_type = redeemScript.type();
     if(redeem_type == P2WPKH){
         Script sc(pk.publicKey(), P2PKH);
+        if(!sc){ // out of memory
+            return Signature();
+        }
         sigHashSegwit(h, inputIndex, sc, amount, sighash);
     }else{
         sigHashSegwit(h, inputIndex, redeemScript, amount, sighash);
@@ -721,27 +734,35 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     PublicKey pubkey = pk.publicKey();
     Signature sig = pk.sign(h);
 
+    bool ok = true;
     if((type == P2SH_P2WPKH) || (type == P2SH_P2WSH)){
         Script script_sig;
         if(redeem_type == P2WPKH){
             script_sig.push(redeemScript);
         }else{
             Script sc(redeemScript, P2WSH);
-            script_sig.push(sc);
+            if(sc){
+                script_sig.push(sc);
+            }
         }
         txIns[inputIndex].scriptSig = script_sig;
+        ok = (bool)txIns[inputIndex].scriptSig;
     }else{
         Script empty;
         txIns[inputIndex].scriptSig = empty;
     }
 
     Witness w;
-    w.push(sig);
-    w.push(pubkey);
+    ok = ok && w.push(sig) > 0;
+    ok = ok && w.push(pubkey) > 0;
     if(redeem_type != P2WPKH){
-        w.push(redeemScript);
+        ok = ok && w.push(redeemScript) > 0;
     }
+    if(!ok){ w.clear(); } // out of memory
     txIns[inputIndex].witness = w;
+    if(!txIns[inputIndex].witness){ // out of memory, not signed
+        return Signature();
+    }
 
     return sig;
 }
-- 
2.43.0


From 4ddc1443e05f9eccbe6ca49eae9a374babcdbdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:57 +0000
Subject: [PATCH 30/59] fix: adding an input or output emptied scripts of the
 transaction when memory ran out

---
 src/Bitcoin.h       |  4 ++--
 src/Transaction.cpp | 24 ++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index b8e24a9..2830f51 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -700,9 +700,9 @@ public:
 #endif
 
     /** \brief adds another input to the transaction */
-    uint8_t addInput(const TxIn txIn);
+    uint8_t addInput(const TxIn & txIn);
     /** \brief adds another output to the transaction */
-    uint8_t addOutput(const TxOut txOut);
+    uint8_t addOutput(const TxOut & txOut);
 
     /** \brief calculates a hash to sign for certain input */
     int sigHash(uint8_t h[32], uint8_t inputIndex, const Script & scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index c4e9673..b5b70ca 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -595,23 +595,43 @@ String Tx::wtxid() const{
 }
 #endif
 
-uint8_t Tx::addInput(const TxIn txIn){
+// copies of scripts and witnesses are empty if there was not enough memory for them
+static bool copied(const TxIn & copy, const TxIn & other){
+    return copy.length() == other.length() && copy.witness.length() == other.witness.length();
+}
+static bool copied(const TxOut & copy, const TxOut & other){
+    return copy.length() == other.length();
+}
+
+uint8_t Tx::addInput(const TxIn & txIn){
     TxIn * arr = new TxIn[inputsNumber+1];
+    bool ok = true;
     for(unsigned int i=0; i<inputsNumber; i++){
         arr[i] = txIns[i];
+        ok = ok && copied(arr[i], txIns[i]);
     }
     arr[inputsNumber] = txIn;
+    if(!ok || !copied(arr[inputsNumber], txIn)){ // out of memory
+        delete [] arr;
+        return inputsNumber;
+    }
     delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
 }
-uint8_t Tx::addOutput(const TxOut txOut){
+uint8_t Tx::addOutput(const TxOut & txOut){
     TxOut * arr = new TxOut[outputsNumber+1];
+    bool ok = true;
     for(unsigned int i=0; i<outputsNumber; i++){
         arr[i] = txOuts[i];
+        ok = ok && copied(arr[i], txOuts[i]);
     }
     arr[outputsNumber] = txOut;
+    if(!ok || !copied(arr[outputsNumber], txOut)){ // out of memory
+        delete [] arr;
+        return outputsNumber;
+    }
     delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
-- 
2.43.0


From 4e259a1523f43a611ae5a3d4b85fb4e0daac3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:13 +0000
Subject: [PATCH 31/59] fix: redeem scripts longer than 75 bytes were pushed
 with a length instead of a push opcode

---
 src/Script.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index ccaa6e5..c23a5e3 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -473,12 +473,30 @@ size_t Script::push(const Signature sig, SigHashType sigType){
     return push(arr, len+2);
 }
 size_t Script::push(const Script & sc){
-    size_t len = sc.length();
+    size_t len = sc.scriptLen;
+    if(len > MAX_SCRIPT_SIZE){
+        clear();
+        return 0;
+    }
+    // push opcode depends on the length of the data
+    uint8_t op[3] = { (uint8_t)len, 0, 0 };
+    size_t opLen = 1;
+    if(len > 0xff){
+        op[0] = OP_PUSHDATA2;
+        op[1] = len & 0xff;
+        op[2] = len >> 8;
+        opLen = 3;
+    }else if(len >= OP_PUSHDATA1){
+        op[0] = OP_PUSHDATA1;
+        op[1] = len;
+        opLen = 2;
+    }
     uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
+    tmp = (uint8_t *)calloc(opLen + len, sizeof(uint8_t));
     if(tmp == NULL){ clear(); return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
+    memcpy(tmp, op, opLen);
+    if(len > 0){ memcpy(tmp + opLen, sc.scriptArray, len); }
+    push(tmp, opLen + len);
     free(tmp);
     return scriptLen;
 }
-- 
2.43.0


From 6fa881c4817867e6d4207194eeb0ec3dcd7a855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 32/59] fix: fromHex wrote past the end of a too small output
 array

---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index f08b6fd..6154adb 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // doesn't fit
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From b73fd757233205cae324583d6f1a9e51fa655e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 33/59] fix: base58 and base43 decoding failed with many
 leading zeroes and read zero characters as digits; base58check strings could
 read past the input or uninitialised memory

---
 src/Conversion.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 6154adb..c283664 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -352,8 +352,8 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
-    char * buf = (char *)malloc(len);
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for 4 bytes of the checksum +1 for null terminator
+    char * buf = (char *)calloc(len, sizeof(char));
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
     String result(buf);
@@ -364,11 +364,15 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
 #endif
 
 
-// TODO: add zero count, fix wrong length
 size_t fromBase58Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 361 / 493 + 1;
-    return size;
+    // leading zeroes are encoded with one character each
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE58_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 361 / 493 + 1;
+    return size+zeroCount;
 }
 
 size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -379,7 +383,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
@@ -388,7 +392,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -415,7 +419,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
@@ -566,11 +570,15 @@ String toBase43(const uint8_t * array, size_t arraySize){
     return s;
 }
 #endif
-// TODO: add zero count, fix wrong length
 size_t fromBase43Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 68 / 100 + 1;
-    return size;
+    // leading zeroes are encoded with one character each
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE43_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 68 / 100 + 1;
+    return size+zeroCount;
 }
 
 size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -581,7 +589,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
@@ -590,7 +598,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -616,7 +624,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From 687d88674a6cdb08ee0ccde0cda257e0211f780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 34/59] fix: base64 of nothing and base64 without padding were
 read out of bounds, zero characters were decoded

---
 src/Conversion.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index c283664..cb65767 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -693,7 +693,7 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
             memset(output + 4 * cur + 1 + rem, '=', 3-rem);
             len += 4;
         }
-    }else{
+    }else if(arraySize > 0){
         uint32_t val = bigEndianToInt(array+3*cur, 3);
         for(uint8_t i=0; i<4; i++){
             output[4*cur + i] = BASE64_CHARS[((val >> (6*(3-i))) & 0x3F)];
@@ -726,7 +726,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 }
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
-    if(array == NULL){ return 0; }
+    if(array == NULL || arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
@@ -757,7 +757,7 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            char c = (cur*4+i < encodedSize) ? encoded[cur*4+i] : 0;
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -766,8 +766,8 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
                 c = '/';
             }
             const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
+            if(pch==NULL || c == 0){
+                if((c == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From 35571a68a577dc986e6011753be6fff2c7ad1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 35/59] fix: decoding of long, regtest and non-zero version
 segwit addresses

---
 src/Script.cpp            | 7 ++++---
 src/utility/segwit_addr.c | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index c23a5e3..c3c6d0b 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -148,7 +148,8 @@ void Script::fromAddress(const char * address){
     ScriptType type = UNKNOWN_TYPE;
     const Network * network;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        size_t hrpLen = strlen(networks[i]->bech32);
+        if(strncmp(address, networks[i]->bech32, hrpLen)==0 && address[hrpLen] == '1'){
             type = P2WPKH;
             network = networks[i];
             break;
@@ -157,7 +158,7 @@ void Script::fromAddress(const char * address){
     // segwit
     if(type == P2WPKH){
         int ver = 0;
-        uint8_t prog[32];
+        uint8_t prog[40]; // max length of the witness program
         size_t prog_len = 0;
         int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
         if(r != 1){ // decoding failed
@@ -166,7 +167,7 @@ void Script::fromAddress(const char * address){
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
+        scriptArray[0] = (ver == 0) ? OP_0 : OP_1+ver-1;
         scriptArray[1] = prog_len; // varint?
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..c329018 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -178,6 +178,7 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
+    if (strlen(addr) > 90) return 0;
     if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
-- 
2.43.0


From ee9485ee5c8cd50723ea854f121816886333edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 36/59] fix: refused WIF and extended key strings left a key
 behind, wrong lengths and invalid keys were accepted

---
 src/Bitcoin.cpp  | 15 +++++++++++----
 src/HDWallet.cpp |  8 ++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index ec2c5e8..c4f7ffc 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -565,8 +565,10 @@ String PrivateKey::wif() const{
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
-    if( (l < 33) || (l > 34) ){
-        memzero(num, 32);
+    reset(); // if something is wrong with the string the key stays invalid
+    pubKey = PublicKey();
+    if( (l < 33) || (l > 34) || (l == 34 && arr[33] != 0x01) ){
+        memzero(arr, sizeof(arr));
         return 0;
     }
     bool compressed;
@@ -579,18 +581,23 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
             break;
         }
     }
-    if(!found){
+    bignum256 n;
+    bn_read_be(arr+1, &n);
+    if(!found || bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
+        memzero(arr, sizeof(arr));
+        memzero(&n, sizeof(n));
         return 0;
     }
 
     if(l == 34){
-        compressed = (arr[33] > 0);
+        compressed = true;
     }
     if(l == 33){
         compressed = false;
     }
     memcpy(num, arr+1, 32);
     memzero(arr, 40); // clear memory
+    memzero(&n, sizeof(n));
 
     pubKey = *this * GeneratorPoint;
     pubKey.compressed = compressed;
diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f41294d..476d800 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -232,10 +232,10 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
     return xprvLen;
 }
@@ -661,10 +661,10 @@ size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
     reset();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
     return xpubLen;
 }
-- 
2.43.0


From 13de394df116433ee433e55024eec2f949f6289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 37/59] fix: derivation paths with too large indexes or without
 components led to wrong keys or out of bounds reads

---
 src/HDWallet.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 476d800..5bd4ad8 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -479,12 +479,19 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     size_t len = strlen(path);
     const char * cur = path;
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        if(path[1] != '/' && path[1] != 0){
+            return HDPrivateKey(); // not a path
+        }
+        size_t prefixLen = (path[1] == '/') ? 2 : 1;
+        cur+=prefixLen;
+        len-=prefixLen;
     }
-    if(cur[len-1] == '/'){ // remove trailing "/"
+    if(len > 0 && cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
+    if(len == 0){ // nothing to derive
+        return *this;
+    }
     HDPrivateKey pk; // invalid private key to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
@@ -512,6 +519,10 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
             return pk;
         }
         if(val < 10){
+            if(derivation[current] > (0xFFFFFFFF - val)/10){ // doesn't fit in 32 bits
+                free(derivation);
+                return pk;
+            }
             derivation[current] = derivation[current]*10 + val;
         }else{ // h or ' -> hardened
             derivation[current] += HARDENED_INDEX;
@@ -824,12 +835,19 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     size_t len = strlen(path);
     const char * cur = path;
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        if(path[1] != '/' && path[1] != 0){
+            return HDPublicKey(); // not a path
+        }
+        size_t prefixLen = (path[1] == '/') ? 2 : 1;
+        cur+=prefixLen;
+        len-=prefixLen;
     }
-    if(cur[len-1] == '/'){ // remove trailing "/"
+    if(len > 0 && cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
+    if(len == 0){ // nothing to derive
+        return *this;
+    }
     HDPublicKey pk; // dummy to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
@@ -856,6 +874,10 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
         uint32_t val = pch-VALID_CHARS;
+        if(derivation[current] > (0xFFFFFFFF - val)/10){ // doesn't fit in 32 bits
+            free(derivation);
+            return pk;
+        }
         derivation[current] = derivation[current]*10 + val;
     }
     pk = derive(derivation, derivationLen);
-- 
2.43.0


From 841365650528954e41f454fcfde0c470f62baba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 38/59] fix: sortedmulti did not sort the keys, comparison of
 points was inverted

---
 src/BitcoinCurve.cpp |  6 +++---
 src/Script.cpp       | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index c840e9b..ec8ab6c 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -261,11 +261,11 @@ bool ECScalar::operator<(const ECScalar& other) const{
 	return bn_is_less(&a, &b);
 }
 bool ECPoint::operator<(const ECPoint& other) const{
-	uint8_t sec1[65];
-	uint8_t sec2[65];
+	uint8_t sec1[65] = { 0 };
+	uint8_t sec2[65] = { 0 };
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
diff --git a/src/Script.cpp b/src/Script.cpp
index c3c6d0b..e4d5ea5 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -105,8 +105,14 @@ static void quickSort(PublicKey array[], int low, int high) {
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
     // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    PublicKey sortedkeys[16];
+    if(pubkeys_len == 0 || pubkeys_len > 16){
+        return Script();
+    }
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From e420f5d0dc3d4b38b75bc7993c40b7d7b5b2730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 39/59] fix: fromBin wrapped around after 256 bytes

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index cb65767..ba867e5 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -149,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From eddd8f77c9504eea183f9767c772e25f3f56755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:22 +0000
Subject: [PATCH 40/59] fix: keep the sighash type of partial signatures found
 in a PSBT

---
 src/PSBT.cpp | 7 ++++---
 src/PSBT.h   | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 11a9381..612d5aa 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -299,11 +299,12 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(v->scriptArray, v->scriptLen);
-                if(psig.signature.getStatus() != PARSING_DONE){
+                l = psig.signature.parse(v->scriptArray, v->scriptLen);
+                if(psig.signature.getStatus() != PARSING_DONE || l+1 != v->scriptLen){
                     res = -2;
                     break;
                 }
+                psig.sighash = v->scriptArray[l]; // signature is followed by the sighash type
                 // there can be only one signature per public key
                 size_t idx = 0;
                 while(idx<txInsMeta[input].signaturesLen && txInsMeta[input].signatures[idx].pubkey != psig.pubkey){
@@ -437,7 +438,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_arr[100];
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
-                val_arr[val_len] = SIGHASH_ALL;
+                val_arr[val_len] = txInsMeta[input].signatures[i].sighash;
                 while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
diff --git a/src/PSBT.h b/src/PSBT.h
index a15462c..c4cf96f 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -24,6 +24,8 @@ typedef struct{
     PublicKey pubkey;
     /** \brief Signature we generated */
     Signature signature;
+    /** \brief Sighash type the signature was made for */
+    uint8_t sighash;
 } PSBTPartialSignature;
 
 /** \brief Data required for input signing */
-- 
2.43.0


From 44c47cdc06ca69e5ab933dcdf73a36386db9660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:59 +0000
Subject: [PATCH 41/59] fix: numbers written to more than 8 bytes repeat
 themselves

Shifting by 64 bits and more is undefined; ECScalar(uint32_t) became another number.
---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index ba867e5..bd8547b 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -845,7 +845,7 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        array[i] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -860,7 +860,7 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        array[arraySize-i-1] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
-- 
2.43.0


From 4153be5169b21441392cdc2a6fcd508389e4e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:17 +0000
Subject: [PATCH 42/59] fix: large numbers added to or subtracted from a scalar

bn_addi overflows with more than 30 bits and bn_subi asserts that the number is smaller
than the lowest limb of the order.
---
 src/BitcoinCurve.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index ec8ab6c..c113ece 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -205,13 +205,7 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this + ECScalar(i);
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
@@ -222,13 +216,7 @@ ECScalar ECScalar::operator-() const{
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this - ECScalar(i);
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
-- 
2.43.0


From fe982d8ac3aee3ab633c6fe2260dcc115df20c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:53 +0000
Subject: [PATCH 43/59] fix: signatures of sighash types NONE and SINGLE

---
 src/Transaction.cpp | 48 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index b5b70ca..08d4a68 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -498,13 +498,31 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script & scriptPubkey,
         intToLittleEndian(txIns[i].outputIndex, arr, 4);
         s.write(arr, 4);
         s.serialize((i == inputIndex) ? &scriptPubkey : &empty, 0);
-        intToLittleEndian(txIns[i].sequence, arr, 4);
+        // NONE and SINGLE do not sign sequence numbers of other inputs
+        intToLittleEndian((i == inputIndex || sighash == SIGHASH_ALL) ? txIns[i].sequence : 0, arr, 4);
         s.write(arr, 4);
     }
-    l = writeVarInt(outputsNumber, arr, 10);
+    size_t signedOutputs = outputsNumber;
+    if(sighash == SIGHASH_NONE){
+        signedOutputs = 0;
+    }
+    if(sighash == SIGHASH_SINGLE){ // only the output with the same index
+        signedOutputs = inputIndex+1;
+        if(signedOutputs > outputsNumber){ // nothing to sign, the hash is defined as number 1
+            memset(h, 0, 32);
+            h[0] = 1;
+            return 32;
+        }
+    }
+    l = writeVarInt(signedOutputs, arr, 10);
     s.write(arr, l);
-    for(size_t i=0; i<outputsNumber; i++){
-        s.serialize(&txOuts[i], 0);
+    for(size_t i=0; i<signedOutputs; i++){
+        if(sighash == SIGHASH_SINGLE && i != inputIndex){ // blank output: amount -1, no script
+            const uint8_t blank[9] = { 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x00 };
+            s.write(blank, sizeof(blank));
+        }else{
+            s.serialize(&txOuts[i], 0);
+        }
     }
     intToLittleEndian(locktime, arr, 4);
     s.write(arr, 4);
@@ -683,7 +701,11 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script & scriptPu
     hashPrevouts(h);
     s.write(h, 32);
 
-    hashSequence(h);
+    if(sighash == SIGHASH_ALL){
+        hashSequence(h);
+    }else{ // NONE and SINGLE do not sign sequence numbers of other inputs
+        memset(h, 0, 32);
+    }
     s.write(h, 32);
 
     s.write(txIns[inputIndex].hash, 32);
@@ -696,7 +718,17 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script & scriptPu
     intToLittleEndian(txIns[inputIndex].sequence, arr, 4);
     s.write(arr, 4);
 
-    hashOutputs(h);
+    memset(h, 0, 32);
+    if(sighash == SIGHASH_SINGLE){ // only the output with the same index
+        if(inputIndex < outputsNumber){
+            DoubleSha out;
+            out.begin();
+            out.serialize(&txOuts[inputIndex], 0);
+            out.end(h);
+        }
+    }else if(sighash != SIGHASH_NONE){
+        hashOutputs(h);
+    }
     s.write(h, 32);
 
     intToLittleEndian(locktime, arr, 4);
@@ -719,7 +751,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script &
     Signature sig = pk.sign(h);
 
     Script sc;
-    bool ok = sc.push(sig) > 0;
+    bool ok = sc.push(sig, sighash) > 0;
     ok = ok && sc.push(pubkey) > 0;
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
@@ -773,7 +805,7 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     }
 
     Witness w;
-    ok = ok && w.push(sig) > 0;
+    ok = ok && w.push(sig, sighash) > 0;
     ok = ok && w.push(pubkey) > 0;
     if(redeem_type != P2WPKH){
         ok = ok && w.push(redeemScript) > 0;
-- 
2.43.0


From 4b2841b1f2ccd230d2e823e9dd4d70d695d498a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:03 +0000
Subject: [PATCH 44/59] fix: descriptor with a zero byte got a checksum

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 612d5aa..4ed3119 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || ch==0){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0


From e3817b2c64710144e877b85f3ae56791b472fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 45/59] fix: an extended public key verifies signatures like
 its public key

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index c4f7ffc..6c69513 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -438,7 +438,7 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
     uint8_t pub[65];
-    serialize(pub, 65);
+    sec(pub, sizeof(pub)); // not serialize: extended keys serialize as xpub
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From e04d81594a416694b96b6e1022371c8e34f52d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:56 +0000
Subject: [PATCH 46/59] fix: wtxid of a transaction without witnesses is its
 txid

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 08d4a68..c38e8aa 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -555,6 +555,9 @@ int Tx::hash(uint8_t * h) const{
     return 32;
 }
 int Tx::whash(uint8_t * h) const{
+    if(!isSegwit()){ // without witnesses wtxid is the same as txid
+        return hash(h);
+    }
     DoubleSha s;
     s.begin();
 
-- 
2.43.0


From a761afe83aab9c38e2c644956902a3b6e8e2119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:44 +0000
Subject: [PATCH 47/59] fix: mnemonicToEntropy ignored the length of the phrase
 and read past it

---
 src/Bitcoin.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 6c69513..c1451bd 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -41,23 +41,29 @@ const char * mnemonicFromEntropy(const uint8_t * entropy_data, size_t dataLen){
     return mnemonic_from_data(entropy_data, dataLen);
 }
 size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * output, size_t outputLen){
+    char str[24*10] = { 0 }; // zero-terminated copy, 24 words with spaces at most
+    if(mnemonicLen >= sizeof(str)){
+        return 0;
+    }
+    memcpy(str, mnemonic, mnemonicLen);
     int num_words = 1;
-    for (size_t i = 0; i < strlen(mnemonic); i++){
-        if(mnemonic[i] == ' '){
+    for (size_t i = 0; i < strlen(str); i++){
+        if(str[i] == ' '){
             num_words ++;
         }
     }
     size_t entropy_len = (num_words*4)/3;
-    if(outputLen < entropy_len){
-        return 0;
-    }
     uint8_t res[33] = {0};
-    int r = mnemonic_to_entropy(mnemonic, res);
-    if(r == 0){
-        return 0;
+    int r = 0;
+    if(outputLen >= entropy_len){
+        r = mnemonic_to_entropy(str, res);
+    }
+    if(r != 0){
+        memcpy(output, res, entropy_len);
     }
-    memcpy(output, res, entropy_len);
-    return entropy_len;
+    memzero(str, sizeof(str));
+    memzero(res, sizeof(res));
+    return (r != 0) ? entropy_len : 0;
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 size_t mnemonicToEntropy(String mnemonic, uint8_t * output, size_t outputLen){
-- 
2.43.0


From 8c9b91deb8c744185008993d8d2b7d9e7dc3dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:20 +0000
Subject: [PATCH 48/59] fix: Script::fromAddress accepts bech32 addresses in
 upper case

---
 src/Script.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index e4d5ea5..ed3c6c2 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -155,7 +155,11 @@ void Script::fromAddress(const char * address){
     const Network * network;
     for(int i=0; i<networks_len; i++){
         size_t hrpLen = strlen(networks[i]->bech32);
-        if(strncmp(address, networks[i]->bech32, hrpLen)==0 && address[hrpLen] == '1'){
+        size_t n = 0; // bech32 address can be in upper case as well
+        while(n < hrpLen && (address[n] | 0x20) == networks[i]->bech32[n]){
+            n++;
+        }
+        if(n == hrpLen && address[hrpLen] == '1'){
             type = P2WPKH;
             network = networks[i];
             break;
-- 
2.43.0


From 0751bb170ce03ade56946d9925b74c66b28c3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:20 +0000
Subject: [PATCH 49/59] fix: segwit addresses of version 1 and above use the
 Bech32m checksum (BIP-350)

---
 src/utility/segwit_addr.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index c329018..6d17f56 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -47,7 +47,12 @@ static const int8_t charset_rev[128] = {
      1,  0,  3, 16, 11, 28, 12, 14,  6,  4,  2, -1, -1, -1, -1, -1
 };
 
-int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+/* checksum constant: Bech32 for witness version 0, Bech32m (BIP-350) for all others */
+static uint32_t segwit_addr_const(int witver) {
+    return witver == 0 ? 1 : 0x2bc830a3UL;
+}
+
+static int bech32_encode_const(char *output, const char *hrp, const uint8_t *data, size_t data_len, uint32_t final_const) {
     uint32_t chk = 1;
     size_t i = 0;
     while (hrp[i] != 0) {
@@ -75,7 +80,7 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     for (i = 0; i < 6; ++i) {
         chk = bech32_polymod_step(chk);
     }
-    chk ^= 1;
+    chk ^= final_const;
     for (i = 0; i < 6; ++i) {
         *(output++) = charset[(chk >> ((5 - i) * 5)) & 0x1f];
     }
@@ -83,7 +88,12 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     return 1;
 }
 
-int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+    return bech32_encode_const(output, hrp, data, data_len, 1);
+}
+
+/* returns the checksum residue, 0 if the string is malformed */
+static uint32_t bech32_decode_residue(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
     uint32_t chk = 1;
     size_t i;
     size_t input_len = strlen(input);
@@ -137,7 +147,11 @@ int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input)
     if (have_lower && have_upper) {
         return 0;
     }
-    return chk == 1;
+    return chk;
+}
+
+int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+    return bech32_decode_residue(hrp, data, data_len, input) == 1;
 }
 
 int convert_bits(uint8_t* out, size_t* outlen, int outbits, const uint8_t* in, size_t inlen, int inbits, int pad) {
@@ -171,7 +185,7 @@ int segwit_addr_encode(char *output, const char *hrp, int witver, const uint8_t
     data[0] = witver;
     convert_bits(data + 1, &datalen, 5, witprog, witprog_len, 8, 1);
     ++datalen;
-    return bech32_encode(output, hrp, data, datalen);
+    return bech32_encode_const(output, hrp, data, datalen, segwit_addr_const(witver));
 }
 
 int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const char* hrp, const char* addr) {
@@ -179,10 +193,12 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     char hrp_actual[84];
     size_t data_len;
     if (strlen(addr) > 90) return 0;
-    if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
+    uint32_t residue = bech32_decode_residue(hrp_actual, data, &data_len, addr);
+    if (!residue) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
     if (data[0] > 16) return 0;
+    if (residue != segwit_addr_const(data[0])) return 0;
     *witdata_len = 0;
     if (!convert_bits(witdata, witdata_len, 8, data + 1, data_len - 1, 5, 0)) return 0;
     if (*witdata_len < 2 || *witdata_len > 40) return 0;
-- 
2.43.0


From 7c5fa231a8ed50851c37f69ab2da5f74acad0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:57 +0000
Subject: [PATCH 50/59] fix: Tx::signInput left the witness of an earlier
 signature in a legacy input

---
 src/Transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index c38e8aa..528d989 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -766,6 +766,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script &
     if(!txIns[inputIndex].scriptSig){ // out of memory, not signed
         return Signature();
     }
+    txIns[inputIndex].witness.clear(); // legacy inputs have no witness
 
     return sig;
 }
-- 
2.43.0


From f114374ccb0492a2f0cd78666dac8c9ec467c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:52 +0000
Subject: [PATCH 51/59] fix: Witness::count() was truncated to 8 bits, a
 witness of 256 elements was dropped

---
 src/Bitcoin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2830f51..c3fbb16 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -571,7 +571,7 @@ public:
     Witness(const Witness &other); // copy
     ~Witness(){ if(witnessArray){ free(witnessArray); } };
     /** \brief returns number of elements in the witness */
-    uint8_t count() const{ return numElements; };
+    uint32_t count() const{ return numElements; };
     /** \brief adds `<len><data>` to the witness */
     size_t push(const uint8_t * data, size_t len);
     /** \brief adds `<len><sec>` to the witness */
-- 
2.43.0


From f6cf1dfb7ce61357c84b5155ea33d986112305cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:31 +0000
Subject: [PATCH 52/59] fix: private keys not below the group order were
 received as another key

---
 src/Bitcoin.cpp  | 7 +++----
 src/HDWallet.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index c1451bd..9e682a3 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -501,12 +501,11 @@ size_t PrivateKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
+        if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
             status = PARSING_FAILED;
+            memzero(num, 32); // not a key
         }
+        memzero(&n, sizeof(n));
         pubKey = *this * GeneratorPoint;
     }
     bytes_parsed += bytes_read;
diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 5bd4ad8..7f118e3 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -216,12 +216,11 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
+        if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
             status = PARSING_FAILED;
+            memzero(num, 32); // not a key
         }
+        memzero(&n, sizeof(n));
         pubKey = *this * GeneratorPoint;
         pubKey.compressed = true;
     }
-- 
2.43.0


From 5e5cd5c393f84e02f75efd6844eceeb0ac34221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:49 +0000
Subject: [PATCH 53/59] fix: fee() wrapped around when output amounts don't fit
 in 64 bits

---
 src/Electrum.cpp | 6 +++---
 src/PSBT.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 5705838..f376974 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -181,11 +181,11 @@ uint64_t ElectrumTx::fee() const{
     }
     uint64_t outputs_amount = 0;
     for(unsigned int i=0; i < tx.outputsNumber; i++){
+        if(tx.txOuts[i].amount > inputs_amount - outputs_amount){ // also if the sum doesn't fit in 64 bits
+            return 0;
+        }
         outputs_amount += tx.txOuts[i].amount;
     }
-    if(inputs_amount < outputs_amount){
-        return 0;
-    }
     return inputs_amount-outputs_amount;
 }
 
diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 4ed3119..177196f 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -622,11 +622,11 @@ uint64_t PSBT::fee() const{
         input_amount += txInsMeta[i].txOut.amount;
     }
     for(size_t i=0; i<tx.outputsNumber; i++){
+        if(tx.txOuts[i].amount > input_amount - output_amount){ // also if the sum doesn't fit in 64 bits
+            return 0;
+        }
         output_amount += tx.txOuts[i].amount;
     }
-    if(output_amount > input_amount){
-        return 0;
-    }
     return input_amount-output_amount;
 }
 
-- 
2.43.0


From b2149b118cb358a9f5e04e71dd504d91e6184238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:51 +0000
Subject: [PATCH 54/59] fix: ElectrumTx::sign signed for an extended key with
 another chain code

---
 src/Electrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index f376974..823a76d 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -155,7 +155,7 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
         HDPublicKey pub = account.xpub();
         ScriptType type = txInsMeta[i].hd.type;
         pub.type = type;
-        if(pub == txInsMeta[i].hd){
+        if(pub == txInsMeta[i].hd && memcmp(pub.chainCode, txInsMeta[i].hd.chainCode, sizeof(pub.chainCode)) == 0){
             PrivateKey pk = account.child(txInsMeta[i].derivation[0]).child(txInsMeta[i].derivation[1]);
             Signature sig;
             if(type == P2PKH || type == P2SH || type == UNKNOWN_TYPE || type == DIRECT_SCRIPT){
-- 
2.43.0


From 48ffe1aafec7544697114ab83eade546d548574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 55/59] fix: the negative of a zero scalar is zero, not the
 group order

---
 src/BitcoinCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index c113ece..1df4c7a 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -211,6 +211,7 @@ ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 is 0
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
-- 
2.43.0


From ede1d04c04327980d895df7580b292763a5e9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 56/59] fix: bn_inverse of zero read one word before the number

---
 src/utility/trezor/bignum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/trezor/bignum.c b/src/utility/trezor/bignum.c
index 20c57d9..32dbef5 100755
--- a/src/utility/trezor/bignum.c
+++ b/src/utility/trezor/bignum.c
@@ -677,7 +677,7 @@ void bn_inverse(bignum256 *x, const bignum256 *prime)
 			// if input was 0, return.
 			// This simple check prevents crashing with stack underflow
 			// or worse undesired behaviour for illegal input.
-			if (even->len1 < 0)
+			if (even->len1 <= 0)
 				return;
 		}
 
-- 
2.43.0


From 0463f9bcb1cb7e739e9900a9109bdae9812c37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:38 +0000
Subject: [PATCH 57/59] fix: RFC6979 nonce uses the digest reduced modulo the
 group order

---
 src/utility/trezor/ecdsa.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utility/trezor/ecdsa.c b/src/utility/trezor/ecdsa.c
index eb47d40..ac1abeb 100755
--- a/src/utility/trezor/ecdsa.c
+++ b/src/utility/trezor/ecdsa.c
@@ -737,13 +737,16 @@ int ecdsa_sign_digest(const ecdsa_curve *curve, const uint8_t *priv_key, const u
 	bignum256 *s = &R.y;
 	uint8_t by; // signature recovery byte
 
+	bn_read_be(digest, &z);
+
 #if USE_RFC6979
 	rfc6979_state rng;
-	init_rfc6979(priv_key, digest, &rng);
+	uint8_t hash[32]; // RFC6979 uses the digest modulo the group order
+	bn_mod(&z, &curve->order);
+	bn_write_be(&z, hash);
+	init_rfc6979(priv_key, hash, &rng);
 #endif
 
-	bn_read_be(digest, &z);
-
 	for (i = 0; i < 10000; i++) {
 
 #if USE_RFC6979
-- 
2.43.0


From af845f395e0717e5cd1caa565621a6a739662535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 58/59] fix: Signature::der overflowed an output buffer that is
 too small

---
 src/Bitcoin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 9e682a3..4a5e84d 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -261,6 +261,9 @@ size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
+    if(len < (size_t)_rlen + _slen + 6){ // does not fit
+        return 0;
+    }
     bytes[0] = 0x30;
     bytes[1] = 4+_rlen+2+_slen-2;
     bytes[2] = 0x02;
-- 
2.43.0


From a70e7b8c47aa9bbb57d8eaf6aeeae79381f86e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:22 +0000
Subject: [PATCH 59/59] fix: copies of transactions silently lost scripts when
 memory ran out

---
 src/Electrum.cpp    |  4 ++++
 src/PSBT.cpp        | 27 +++++++++++++++++++++++++++
 src/Transaction.cpp |  7 +++++++
 3 files changed, 38 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 823a76d..7f6e7c1 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -9,6 +9,10 @@ ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     txInsMeta = NULL;
     tx = other.tx;
     is_segwit = other.is_segwit;
+    if(tx.inputsNumber != other.tx.inputsNumber || tx.outputsNumber != other.tx.outputsNumber){ // out of memory
+        status = PARSING_FAILED;
+        return *this;
+    }
     if(other.txInsMeta != NULL){
         txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
         for(unsigned int i=0; i<tx.inputsNumber; i++){
diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 177196f..8fea271 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -676,6 +676,16 @@ static PSBTDerivation * copyDerivations(const PSBTDerivation * other, size_t len
     return res;
 }
 
+// checks that all derivation paths were copied
+static bool sameDerivations(const PSBTDerivation * a, const PSBTDerivation * b, size_t len){
+    for(size_t j=0; j<len; j++){
+        if(a[j].derivationLen != b[j].derivationLen){
+            return false;
+        }
+    }
+    return true;
+}
+
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
     // free memory
@@ -683,16 +693,25 @@ PSBT& PSBT::operator=(PSBT const &other){
     // copy
     tx = other.tx;
     status = other.status;
+    if(tx.inputsNumber != other.tx.inputsNumber || tx.outputsNumber != other.tx.outputsNumber){ // out of memory
+        status = PARSING_FAILED;
+        return *this;
+    }
     if(other.txInsMeta == NULL || other.txOutsMeta == NULL){ // nothing else is there yet
         return *this;
     }
     initMeta();
+    bool complete = true;
     for(size_t i=0; i<tx.inputsNumber; i++){
         txInsMeta[i].txOut = other.txInsMeta[i].txOut;
         txInsMeta[i].redeemScript = other.txInsMeta[i].redeemScript;
         txInsMeta[i].witnessScript = other.txInsMeta[i].witnessScript;
         txInsMeta[i].derivations = copyDerivations(other.txInsMeta[i].derivations, other.txInsMeta[i].derivationsLen);
         txInsMeta[i].derivationsLen = other.txInsMeta[i].derivationsLen;
+        complete = complete && txInsMeta[i].txOut.length() == other.txInsMeta[i].txOut.length()
+            && txInsMeta[i].redeemScript.length() == other.txInsMeta[i].redeemScript.length()
+            && txInsMeta[i].witnessScript.length() == other.txInsMeta[i].witnessScript.length()
+            && sameDerivations(txInsMeta[i].derivations, other.txInsMeta[i].derivations, txInsMeta[i].derivationsLen);
         if(other.txInsMeta[i].signaturesLen > 0){
             txInsMeta[i].signatures = new PSBTPartialSignature[other.txInsMeta[i].signaturesLen];
             txInsMeta[i].signaturesLen = other.txInsMeta[i].signaturesLen;
@@ -706,6 +725,14 @@ PSBT& PSBT::operator=(PSBT const &other){
         txOutsMeta[i].witnessScript = other.txOutsMeta[i].witnessScript;
         txOutsMeta[i].derivations = copyDerivations(other.txOutsMeta[i].derivations, other.txOutsMeta[i].derivationsLen);
         txOutsMeta[i].derivationsLen = other.txOutsMeta[i].derivationsLen;
+        complete = complete && txOutsMeta[i].redeemScript.length() == other.txOutsMeta[i].redeemScript.length()
+            && txOutsMeta[i].witnessScript.length() == other.txOutsMeta[i].witnessScript.length()
+            && sameDerivations(txOutsMeta[i].derivations, other.txOutsMeta[i].derivations, txOutsMeta[i].derivationsLen);
+    }
+    if(!complete){ // out of memory
+        clearMeta();
+        tx = Tx();
+        status = PARSING_FAILED;
     }
     return *this;
 }
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 528d989..bb162b6 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -223,16 +223,23 @@ Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     inputsNumber = other.inputsNumber;
     txOuts = new TxOut[other.outputsNumber];
     outputsNumber = other.outputsNumber;
+    bool complete = true;
     for(unsigned int i=0;i<inputsNumber;i++){
         txIns[i] = other.txIns[i];
+        complete = complete && txIns[i].length() == other.txIns[i].length() && txIns[i].witness.length() == other.txIns[i].witness.length();
     }
     for(unsigned int i=0;i<outputsNumber;i++){
         txOuts[i] = other.txOuts[i];
+        complete = complete && txOuts[i].length() == other.txOuts[i].length();
     }
     locktime = other.locktime;
     segwit_flag = other.segwit_flag;
     status = other.status;
     bytes_parsed = other.bytes_parsed;
+    if(!complete){ // out of memory
+        clear();
+        status = PARSING_FAILED;
+    }
     return *this;
 }
 Tx::~Tx(){
-- 
2.43.0

