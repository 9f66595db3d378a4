From 0379d10859e4b2ca34eaa5a1b2f1558259317441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:08 +0000
Subject: [PATCH 01/70] fix: release the value of an erased struct member

Struct owns its members through raw pointers. erase() removed the map
entry without deleting the value it points to.
---
 libiqxmlrpc/value_type.cc | 12 ++++++++++++
 libiqxmlrpc/value_type.h  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..bf6e3ab 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -318,6 +318,18 @@ void Struct::insert( const std::string& f, const Value& val )
 }
 
 
+void Struct::erase( const std::string& key )
+{
+  iterator i = values.find(key);
+
+  if( i == values.end() )
+    return;
+
+  delete i->second;
+  values.erase(i);
+}
+
+
 // ----------------------------------------------------------------------------
 const char Binary_data::base64_alpha[64] = {
   'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M',
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index e6650be..9e2f5fb 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -249,7 +249,7 @@ public:
   const_iterator find( const std::string& key ) const { return values.find(key); }
   iterator find( const std::string& key ) { return values.find(key); }
 
-  void erase( const std::string& key ) { values.erase(key); }
+  void erase( const std::string& key );
 };
 
 #ifdef _MSC_VER
-- 
2.43.0


From 152ac57d9b994b464cbec2c516e43e15222e2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:43 +0000
Subject: [PATCH 02/70] fix: reject date-times with misplaced characters

A letter or separator in the place of a digit was accepted, because only
the set of characters was checked and the last one not at all. Such a text
was silently turned into a different moment.
---
 libiqxmlrpc/value_type.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index bf6e3ab..f2e4506 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -540,9 +540,12 @@ Date_time::Date_time( const std::string& s )
   if( s.length() != 17 || s[8] != 'T' )
     throw Malformed_iso8601();
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
-    throw Malformed_iso8601();
+  for( size_t i = 0; i < s.length(); ++i )
+  {
+    const bool sep = i == 8 || i == 11 || i == 14;
+    if( sep ? (i != 8 && s[i] != ':') : (s[i] < '0' || s[i] > '9') )
+      throw Malformed_iso8601();
+  }
 
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
   tm_.tm_mon  = atoi( s.substr(4, 2).c_str() ) - 1;
-- 
2.43.0


From a1f9837365ed450baa88b98aab916f7eaaad314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:25 +0000
Subject: [PATCH 03/70] fix: reject base64 text with misplaced padding

A padding character followed by more data ended the decoding of its group
only, so texts such as "AA=A" or "AA==AAAA" were decoded to something
instead of being refused.
---
 libiqxmlrpc/value_type.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index f2e4506..9d73967 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -459,7 +459,7 @@ inline void Binary_data::decode_four( const std::string& four )
   char c3 = four[2];
   char c4 = four[3];
 
-  if( c1 == '=' || c2 == '=' )
+  if( c1 == '=' || c2 == '=' || (c3 == '=' && c4 != '=') )
     throw Malformed_base64();
 
   try {
@@ -483,16 +483,21 @@ void Binary_data::decode()
   const char* d = base64.data();
   size_t dsz = base64.length();
   std::string four;
+  bool padded = false;
 
   for( size_t i = 0; i < dsz; i++ )
   {
     if( isspace( d[i] ) )
       continue;
 
+    if( padded )
+      throw Malformed_base64();
+
     four += d[i];
     if( four.length() == 4 )
     {
       decode_four( four );
+      padded = four[3] == '=';
       four.erase();
     }
   }
-- 
2.43.0


From 5f8e1aad18febdb8ee69bfbc2aa27af2ff0c34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 04/70] fix: keep track of nesting when reading nil values

The builder of a nil value left the closing tag of the nil element to its
parent, which counted it as its own. Arrays with three nils and structs
with two nils could not be read.
---
 libiqxmlrpc/value_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..3a4e561 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -169,10 +169,6 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     retval.reset(sub_build<Value_type*, ArrayBuilder>(true));
     break;
 
-  case NIL:
-    retval.reset(new Nil());
-    break;
-
   default:
     // wait for text within <i4>...</i4>, etc...
     break;
@@ -215,6 +211,10 @@ ValueBuilder::do_visit_element_end(const std::string&)
     retval.reset(Binary_data::from_data(""));
     break;
 
+  case NIL:
+    retval.reset(new Nil());
+    break;
+
   default:
     throw XML_RPC_violation(parser_.context());
   }
-- 
2.43.0


From 9cf8a0d80c17634cb9e84a0c8c595a001506a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:38 +0000
Subject: [PATCH 05/70] fix: read texts that consist of several pieces

Of a text interrupted by a comment or processing instruction only the last
piece was kept, and CDATA sections were ignored. Reading an empty name also
swallowed its closing tag, which confused the nesting level of the struct.
---
 libiqxmlrpc/parser2.cc      | 29 ++++++++++++++++++++---------
 libiqxmlrpc/value_parser.cc |  4 ++++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..51c013d 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -126,7 +126,10 @@ public:
 
     ParseStep():
       done(false),
-      is_empty(false)
+      element_begin(false),
+      element_end(false),
+      is_empty(false),
+      is_text(false)
     {
     }
 
@@ -135,7 +138,10 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT ||
+              type == XML_READER_TYPE_CDATA ||
+              type == XML_READER_TYPE_WHITESPACE ||
+              type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
@@ -196,18 +202,23 @@ public:
     return rv;
   }
 
+  // Reads character data up to the next tag. Pieces of text may be separated
+  // by comments and processing instructions or enclosed in CDATA sections.
   std::string
   read_data()
   {
-    if (!curr.is_text && !curr.element_end)
-    {
+    std::string text;
+
+    if (!curr.is_text)
       read();
-      if (!curr.is_text && !curr.element_end) {
-        std::string err = "text is expected at " + get_context();
-        throw XML_RPC_violation(err);
-      }
+
+    for (; !curr.done && !curr.element_begin && !curr.element_end; read()) {
+      if (curr.is_text)
+        text += to_string(xmlTextReaderValue(reader));
     }
-    return to_string(xmlTextReaderValue(reader));
+
+    pushed_back = true;
+    return text;
   }
 
   std::string
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 3a4e561..bda7610 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -225,6 +225,10 @@ ValueBuilder::do_visit_text(const std::string& text)
 {
   using boost::lexical_cast;
 
+  // white space around tags means nothing
+  if (text.find_first_not_of(" \t\r\n") == std::string::npos)
+    return;
+
   switch (state_.get_state()) {
   case VALUE:
     want_exit();
-- 
2.43.0


From 2107e25e1c5a99359a176e75f9d90cda30432e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:27 +0000
Subject: [PATCH 06/70] fix: check the structure of requests and responses

The builders looked at opening tags only, so a parameter without a value,
a parameter outside of the list of parameters, values after the end of an
array's data and similar documents were accepted. A scalar parameter was
read together with its closing value tag, any other one without it.
---
 libiqxmlrpc/request_parser.cc  | 30 +++++++++++++++++++++++++-----
 libiqxmlrpc/request_parser.h   |  3 +++
 libiqxmlrpc/response_parser.cc | 16 ++++++++++++++--
 libiqxmlrpc/response_parser.h  |  3 +++
 libiqxmlrpc/value_parser.cc    | 21 +++++++++++++++++----
 5 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 4968b9d..a453212 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -13,9 +13,11 @@ enum RequestBuilderState {
   NONE,
   METHOD_CALL,
   METHOD_NAME,
+  METHOD_NAME_END,
   PARAMS,
   PARAM,
-  VALUE
+  VALUE,
+  PARAMS_END
 };
 
 RequestBuilder::RequestBuilder(Parser& parser):
@@ -25,10 +27,9 @@ RequestBuilder::RequestBuilder(Parser& parser):
   static const StateMachine::StateTransition trans[] = {
     { NONE, METHOD_CALL, "methodCall" },
     { METHOD_CALL, METHOD_NAME, "methodName" },
-    { METHOD_NAME, PARAMS, "params" },
+    { METHOD_NAME_END, PARAMS, "params" },
     { PARAMS, PARAM, "param" },
     { PARAM, VALUE, "value" },
-    { VALUE, PARAM, "param" },
     { 0, 0, 0 }
   };
   state_.set_transitions(trans);
@@ -42,10 +43,29 @@ RequestBuilder::do_visit_element(const std::string& tagname)
     method_name_ = parser_.get_data();
     break;
 
-  case VALUE:
-    params_.push_back(sub_build<Value_type*, ValueBuilder>(true));
+  case VALUE: {
+    Value_type* v = sub_build<Value_type*, ValueBuilder>();
+    params_.push_back(v ? v : new String(""));
     break;
   }
+  }
+}
+
+void
+RequestBuilder::do_visit_element_end(const std::string& tagname)
+{
+  if (tagname == "methodName") {
+    state_.set_state(METHOD_NAME_END);
+
+  } else if (tagname == "param") {
+    if (state_.get_state() != VALUE)
+      throw XML_RPC_violation(parser_.context());
+
+    state_.set_state(PARAMS);
+
+  } else if (tagname == "params") {
+    state_.set_state(PARAMS_END);
+  }
 }
 
 Request*
diff --git a/libiqxmlrpc/request_parser.h b/libiqxmlrpc/request_parser.h
index b07f9bb..6b84ba9 100644
--- a/libiqxmlrpc/request_parser.h
+++ b/libiqxmlrpc/request_parser.h
@@ -21,6 +21,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   StateMachine state_;
   boost::optional<std::string> method_name_;
   Param_list params_;
diff --git a/libiqxmlrpc/response_parser.cc b/libiqxmlrpc/response_parser.cc
index a2a963f..ca17bb7 100644
--- a/libiqxmlrpc/response_parser.cc
+++ b/libiqxmlrpc/response_parser.cc
@@ -15,7 +15,9 @@ enum ResponseBuilderState {
   OK_PARAM,
   OK_PARAM_VALUE,
   FAULT_RESPONSE,
-  FAULT_RESPONSE_VALUE
+  FAULT_RESPONSE_VALUE,
+  OK_PARAM_END,
+  RESPONSE_END
 };
 
 ResponseBuilder::ResponseBuilder(Parser& parser):
@@ -48,10 +50,20 @@ ResponseBuilder::do_visit_element(const std::string& tagname)
   }
 }
 
+void
+ResponseBuilder::do_visit_element_end(const std::string& tagname)
+{
+  if (tagname == "param")
+    state_.set_state(OK_PARAM_END);
+  else if (tagname == "params" || tagname == "fault")
+    state_.set_state(RESPONSE_END);
+}
+
 void
 ResponseBuilder::parse_ok()
 {
-  ok_ = sub_build<Value_type*, ValueBuilder>(true);
+  Value_type* v = sub_build<Value_type*, ValueBuilder>();
+  ok_ = Value(v ? v : new String(""));
 }
 
 void
diff --git a/libiqxmlrpc/response_parser.h b/libiqxmlrpc/response_parser.h
index 0370ccc..83c2587 100644
--- a/libiqxmlrpc/response_parser.h
+++ b/libiqxmlrpc/response_parser.h
@@ -22,6 +22,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   void
   parse_ok();
 
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index bda7610..5323b3b 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -25,7 +25,7 @@ public:
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
       { MEMBER, NAME_READ, "name" },
-      { NAME_READ, VALUE_READ, "value" },
+      { NAME_END, VALUE_READ, "value" },
       { 0, 0, 0 }
     };
     state_.set_transitions(trans);
@@ -37,6 +37,7 @@ private:
     NONE,
     MEMBER,
     NAME_READ,
+    NAME_END,
     VALUE_READ,
   };
 
@@ -64,7 +65,10 @@ private:
   virtual void
   do_visit_element_end(const std::string& tagname)
   {
-    if (tagname == "member") {
+    if (tagname == "name") {
+      state_.set_state(NAME_END);
+
+    } else if (tagname == "member") {
       if (state_.get_state() != VALUE_READ) {
         throw XML_RPC_violation(parser_.context());
       }
@@ -91,7 +95,6 @@ public:
     static const StateMachine::StateTransition trans[] = {
       { NONE, DATA, "data" },
       { DATA, VALUES, "value" },
-      { VALUES, VALUES, "value" },
       { 0, 0, 0 }
     };
     state_.set_transitions(trans);
@@ -102,7 +105,8 @@ private:
   enum State {
     NONE,
     DATA,
-    VALUES
+    VALUES,
+    DATA_END
   };
 
   virtual void
@@ -116,6 +120,15 @@ private:
     }
   }
 
+  virtual void
+  do_visit_element_end(const std::string& tagname)
+  {
+    if (tagname == "value")
+      state_.set_state(DATA);
+    else if (tagname == "data")
+      state_.set_state(DATA_END);
+  }
+
   StateMachine state_;
   Array* proxy_;
 };
-- 
2.43.0


From 38bce5cb26f096f2bed6e73e5d1cbbdc3a6b9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:46 +0000
Subject: [PATCH 07/70] fix: preserve strings of white space only

A string element with nothing but white space was read as an empty string.
Such strings are now also written with their tag when string tags are to
be omitted, because an untagged blank value reads as an empty string.
---
 libiqxmlrpc/value_parser.cc   | 3 ++-
 libiqxmlrpc/value_type_xml.cc | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 5323b3b..c08a889 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -239,7 +239,8 @@ ValueBuilder::do_visit_text(const std::string& text)
   using boost::lexical_cast;
 
   // white space around tags means nothing
-  if (text.find_first_not_of(" \t\r\n") == std::string::npos)
+  if (state_.get_state() != STRING &&
+      text.find_first_not_of(" \t\r\n") == std::string::npos)
     return;
 
   switch (state_.get_state()) {
diff --git a/libiqxmlrpc/value_type_xml.cc b/libiqxmlrpc/value_type_xml.cc
index 541e293..0d12b47 100644
--- a/libiqxmlrpc/value_type_xml.cc
+++ b/libiqxmlrpc/value_type_xml.cc
@@ -51,7 +51,11 @@ void Value_type_to_xml::do_visit_bool(bool val)
 
 void Value_type_to_xml::do_visit_string(const std::string& val)
 {
-  if (server_mode_ && Value::omit_string_tag_in_responses()) {
+  // white space alone would be taken for formatting without its tag
+  const bool blank = !val.empty() &&
+    val.find_first_not_of(" \t\r\n") == std::string::npos;
+
+  if (server_mode_ && Value::omit_string_tag_in_responses() && !blank) {
     builder_.add_textdata(val);
   } else {
     add_textnode("string", val);
-- 
2.43.0


From 92b4ea30d3169357a4f717827e1fba36715b212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:05 +0000
Subject: [PATCH 08/70] fix: release the value of an unfinished struct member

When a document turned out to be invalid after the value of a member had
been read, the value was never deleted.
---
 libiqxmlrpc/value_parser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index c08a889..745ca9a 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -19,8 +19,7 @@ class StructBuilder: public ValueBuilderBase {
 public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
-    state_(parser, NONE),
-    value_(0)
+    state_(parser, NONE)
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -50,8 +49,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -73,7 +73,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -81,7 +81,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
-- 
2.43.0


From c6486e39865fb5fb7e4033da889d8f27d9f450b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:26 +0000
Subject: [PATCH 09/70] fix: do not leak the default value of empty i8 elements

---
 libiqxmlrpc/value_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 745ca9a..83ba20f 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -215,7 +215,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
-- 
2.43.0


From 3c09a595fe512f9cfcffcad1e69dd2683e3c357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:17 +0000
Subject: [PATCH 10/70] fix: limit the nesting depth of documents

Values are read recursively and the XML parser's own limit is switched off,
so a small document with deeply nested arrays could exhaust the stack.
---
 libiqxmlrpc/parser2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 51c013d..a216384 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -99,6 +99,8 @@ BuilderBase::do_visit_text(const std::string&)
 
 class Parser::Impl {
 public:
+  static const int max_depth = 2048;
+
   Impl(const std::string& str):
     buf(str),
     pushed_back(false)
@@ -170,6 +172,10 @@ public:
     }
 
     if (code > 0) {
+      // values are read recursively
+      if (depth() > max_depth)
+        throw Parse_error("document is nested too deeply");
+
       curr = ParseStep(node_type(), reader);
     }
 
-- 
2.43.0


From 33f097fa7ed61bc4182b6927d129b3b6036d2460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:46 +0000
Subject: [PATCH 11/70] fix: refuse documents with garbage after the root
 element

Reading stopped at the end of the root element, so whether garbage behind it
was noticed depended on how far the XML parser had read ahead.
---
 libiqxmlrpc/parser2.cc  | 7 +++++++
 libiqxmlrpc/parser2.h   | 4 ++++
 libiqxmlrpc/request.cc  | 1 +
 libiqxmlrpc/response.cc | 1 +
 4 files changed, 13 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index a216384..d6ddec3 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -270,6 +270,13 @@ Parser::parse(BuilderBase& builder)
   } // for
 }
 
+void
+Parser::finish()
+{
+  while (!impl_->read().done)
+    ;
+}
+
 std::string
 Parser::get_data()
 {
diff --git a/libiqxmlrpc/parser2.h b/libiqxmlrpc/parser2.h
index 8974274..462cf56 100644
--- a/libiqxmlrpc/parser2.h
+++ b/libiqxmlrpc/parser2.h
@@ -85,6 +85,10 @@ public:
   void
   parse(BuilderBase& builder);
 
+  //! Reads whatever follows the root element.
+  void
+  finish();
+
   std::string
   get_data();
 
diff --git a/libiqxmlrpc/request.cc b/libiqxmlrpc/request.cc
index 87c0fc9..4fcbe00 100644
--- a/libiqxmlrpc/request.cc
+++ b/libiqxmlrpc/request.cc
@@ -19,6 +19,7 @@ parse_request( const std::string& request_string )
   Parser parser(request_string);
   RequestBuilder builder(parser);
   builder.build();
+  parser.finish();
   return builder.get();
 }
 
diff --git a/libiqxmlrpc/response.cc b/libiqxmlrpc/response.cc
index 40b13b3..2f24b06 100644
--- a/libiqxmlrpc/response.cc
+++ b/libiqxmlrpc/response.cc
@@ -19,6 +19,7 @@ parse_response( const std::string& response_string )
   Parser parser(response_string);
   ResponseBuilder builder(parser);
   builder.build();
+  parser.finish();
   return builder.get();
 }
 
-- 
2.43.0


From 34fdd05df9fe81b49329ddad66f32b0c3b0a4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:13 +0000
Subject: [PATCH 12/70] fix: end the HTTP header at its first empty line

A header with LF line ends was taken to extend into the content when both
arrived in one read and the content had an empty CRLF line.
---
 libiqxmlrpc/http.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..88f223e 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -435,9 +435,11 @@ bool Packet_reader::read_header( const std::string& s )
 
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
+  iterator_range<std::string::iterator> lf = find_first(header_cache, "\n\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  // The header ends at the first empty line, the content may have more of them.
+  if( i.begin() == i.end() || (lf.begin() != lf.end() && lf.begin() < i.begin()) )
+    i = lf;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From 689fa698427d11a581c83d2beebec9f4ba35e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:10 +0000
Subject: [PATCH 13/70] fix: count only the bytes of the request against the
 size limit

Bytes that follow a request in the same read were counted as well, so the
outcome depended on how the stream was split.
---
 libiqxmlrpc/http.cc | 21 +++++++++------------
 libiqxmlrpc/http.h  |  4 ++--
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88f223e..3399f0c 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -411,20 +411,12 @@ void Packet_reader::clear()
   content_cache.erase();
   header_cache.erase();
   constructed = false;
-  total_sz = 0;
+  header_sz = 0;
 }
 
 void Packet_reader::check_sz( size_t sz )
 {
-  if( !pkt_max_sz )
-    return;
-
-  if (header) {
-    if (header->content_length() + header_cache.length() >= pkt_max_sz)
-      throw Request_too_large();
-  }
-
-  if( (total_sz += sz) >= pkt_max_sz )
+  if( pkt_max_sz && sz >= pkt_max_sz )
     throw Request_too_large();
 }
 
@@ -441,6 +433,10 @@ bool Packet_reader::read_header( const std::string& s )
   if( i.begin() == i.end() || (lf.begin() != lf.end() && lf.begin() < i.begin()) )
     i = lf;
 
+  // Only bytes of this packet count: the read may have brought more of them.
+  header_sz = i.begin() == i.end() ? header_cache.length() : i.end() - header_cache.begin();
+  check_sz( header_sz );
+
   if( i.begin() == i.end() )
     return false;
 
@@ -457,15 +453,16 @@ Packet* Packet_reader::read_packet( const std::string& s, bool hdr_only )
   if( constructed )
     clear();
 
-  check_sz( s.length() );
-
   if( !header )
   {
     if( s.empty() )
       throw http::Malformed_packet();
 
     if (read_header(s))
+    {
       header = new Header_type(ver_level_, header_cache);
+      check_sz( header_sz + header->content_length() );
+    }
   }
   else
     content_cache += s;
diff --git a/libiqxmlrpc/http.h b/libiqxmlrpc/http.h
index f3afa66..d1e71ab 100644
--- a/libiqxmlrpc/http.h
+++ b/libiqxmlrpc/http.h
@@ -183,7 +183,7 @@ class Packet_reader {
   Verification_level ver_level_;
   bool constructed;
   size_t pkt_max_sz;
-  size_t total_sz;
+  size_t header_sz;
   bool continue_sent_;
 
 public:
@@ -192,7 +192,7 @@ public:
     ver_level_(HTTP_CHECK_WEAK),
     constructed(false),
     pkt_max_sz(0),
-    total_sz(0),
+    header_sz(0),
     continue_sent_(false)
   {
   }
-- 
2.43.0


From 569315570c07cdeb1d4f9101804884f3980b69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:36 +0000
Subject: [PATCH 14/70] fix: answer Expect: 100-continue of every request of a
 connection

The mark that the interim reply was sent survived the request it was for,
so the next request with an expectation on that connection got none.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 3399f0c..f33d380 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -412,6 +412,7 @@ void Packet_reader::clear()
   header_cache.erase();
   constructed = false;
   header_sz = 0;
+  continue_sent_ = false;
 }
 
 void Packet_reader::check_sz( size_t sz )
-- 
2.43.0


From 501efebcd4bfaffb3b90bd585bbf9e2d0324c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:42 +0000
Subject: [PATCH 15/70] fix: read no more of a connection whose error reply is
 being sent

Input stayed enabled, so bytes or the end of stream that followed the bad
request were handled before the reply was sent and could suppress it.
---
 libiqxmlrpc/http_server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..db569ad 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -97,6 +97,7 @@ void Http_server_connection::handle_input( bool& terminate )
   catch( const http::Error_response& e )
   {
     // Close connection after sending HTTP error response
+    reactor->unregister_handler( this );
     keep_alive = false;
     schedule_response( new http::Packet(e) );
   }
-- 
2.43.0


From 715a142ad8c87516df1914f19a70a2bf1b832ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:47 +0000
Subject: [PATCH 16/70] fix: keep the unsent part of an interim reply in front
 of the reply

When the content arrived before "100 Continue" was written completely, the
reply replaced what was left of it and corrupted the stream.
---
 libiqxmlrpc/http_server.cc | 9 +++------
 libiqxmlrpc/server_conn.cc | 5 +++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index db569ad..a86c676 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -91,7 +91,7 @@ void Http_server_connection::handle_input( bool& terminate )
     if( !packet )
       return;
 
-    reactor->unregister_handler( this, Reactor_base::INPUT );
+    reactor->unregister_handler( this );
     server->schedule_execute( packet, this );
   }
   catch( const http::Error_response& e )
@@ -107,8 +107,9 @@ void Http_server_connection::handle_input( bool& terminate )
 void Http_server_connection::handle_output( bool& terminate )
 {
   size_t sz = send( response.c_str(), response.length() );
+  response.erase( 0, sz );
 
-  if( sz == response.length() )
+  if( response.empty() )
   {
     if( keep_alive )
     {
@@ -117,11 +118,7 @@ void Http_server_connection::handle_output( bool& terminate )
     }
     else
       terminate = true;
-
-    return;
   }
-
-  response.erase( 0, sz );
 }
 
 
diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index 83dd8ad..c33b9cf 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -33,7 +33,7 @@ http::Packet* Server_connection::read_request( const std::string& s )
     if( r ) {
       keep_alive = r->header()->conn_keep_alive();
     } else if( preader.expect_continue() ) {
-      response = "HTTP/1.1 100\r\n\r\n";
+      response += "HTTP/1.1 100\r\n\r\n";
       keep_alive = true;
       do_schedule_response();
       preader.set_continue_sent();
@@ -52,7 +52,8 @@ void Server_connection::schedule_response( http::Packet* pkt )
 {
   std::auto_ptr<http::Packet> p(pkt);
   p->set_keep_alive( keep_alive );
-  response = p->dump();
+  // An interim reply may be not sent yet.
+  response += p->dump();
   do_schedule_response();
 }
 
-- 
2.43.0


From 87da569540d5d7462d89a1e4b8ed7ad4f08b0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:58 +0000
Subject: [PATCH 17/70] fix: serve requests that arrive together with the one
 before them

Bytes after the end of a request were dropped, so a client that sends the
next request of a kept connection early got no reply to it.  Line breaks
that some clients send after the content are still ignored.
---
 libiqxmlrpc/http.cc         | 19 ++++++++++++++++++-
 libiqxmlrpc/http.h          |  3 +++
 libiqxmlrpc/http_server.cc  | 32 +++++++++++++++++++++++---------
 libiqxmlrpc/https_server.cc | 16 ++++++++++++----
 4 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index f33d380..6db6494 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -409,6 +409,7 @@ void Packet_reader::clear()
 {
   header = 0;
   content_cache.erase();
+  rest.erase();
   header_cache.erase();
   constructed = false;
   header_sz = 0;
@@ -481,6 +482,7 @@ Packet* Packet_reader::read_packet( const std::string& s, bool hdr_only )
 
     if( ready )
     {
+      rest.assign( content_cache, header->content_length(), std::string::npos );
       content_cache.erase( header->content_length(), std::string::npos );
       Packet* packet = new Packet( header, content_cache );
       constructed = true;
@@ -503,7 +505,22 @@ void Packet_reader::set_continue_sent()
 
 Packet* Packet_reader::read_request( const std::string& s )
 {
-  return read_packet<Request_header>(s);
+  std::string data;
+  data.swap(rest);
+  data += s;
+
+  if( constructed )
+    clear();
+
+  // Empty lines in front of a request are not a part of it.
+  if( header_cache.empty() && !data.empty() )
+  {
+    data.erase( 0, data.find_first_not_of("\r\n") );
+    if( data.empty() )
+      return 0;
+  }
+
+  return read_packet<Request_header>(data);
 }
 
 Packet* Packet_reader::read_response( const std::string& s, bool hdr_only )
diff --git a/libiqxmlrpc/http.h b/libiqxmlrpc/http.h
index d1e71ab..8898b45 100644
--- a/libiqxmlrpc/http.h
+++ b/libiqxmlrpc/http.h
@@ -179,6 +179,7 @@ public:
 class Packet_reader {
   std::string header_cache;
   std::string content_cache;
+  std::string rest; // bytes of the following request
   Header* header;
   Verification_level ver_level_;
   bool constructed;
@@ -214,6 +215,8 @@ public:
   }
 
   bool expect_continue() const;
+  //! Whether bytes of the following request are already read.
+  bool has_rest() const { return !rest.empty(); }
   Packet* read_request( const std::string& );
   Packet* read_response( const std::string&, bool read_header_only );
   void set_continue_sent(); 
diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index a86c676..7fcaad7 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -35,6 +35,7 @@ public:
   void log_unknown_exception();
 
 private:
+  void process_input( const std::string& );
   virtual void do_schedule_response();
 };
 
@@ -78,18 +79,27 @@ void Http_server_connection::finish()
 
 void Http_server_connection::handle_input( bool& terminate )
 {
-  try {
-    size_t n = recv( read_buf(), read_buf_sz() );
+  size_t n = recv( read_buf(), read_buf_sz() );
 
-    if( !n )
-    {
-      terminate = true;
-      return;
-    }
+  if( !n )
+  {
+    terminate = true;
+    return;
+  }
+
+  process_input( std::string(read_buf(), n) );
+}
 
-    http::Packet* packet = read_request( std::string(read_buf(), n) );
+
+void Http_server_connection::process_input( const std::string& s )
+{
+  try {
+    http::Packet* packet = read_request( s );
     if( !packet )
+    {
+      reactor->register_handler( this, Reactor_base::INPUT );
       return;
+    }
 
     reactor->unregister_handler( this );
     server->schedule_execute( packet, this );
@@ -114,7 +124,11 @@ void Http_server_connection::handle_output( bool& terminate )
     if( keep_alive )
     {
       reactor->unregister_handler( this, Reactor_base::OUTPUT );
-      reactor->register_handler( this, Reactor_base::INPUT );
+
+      if( preader.has_rest() )
+        process_input( std::string() );
+      else
+        reactor->register_handler( this, Reactor_base::INPUT );
     }
     else
       terminate = true;
diff --git a/libiqxmlrpc/https_server.cc b/libiqxmlrpc/https_server.cc
index 9d4e13c..ad1c430 100644
--- a/libiqxmlrpc/https_server.cc
+++ b/libiqxmlrpc/https_server.cc
@@ -28,6 +28,7 @@ public:
 
 protected:
   void my_reg_recv();
+  void process_input( const std::string& );
   void accept_succeed();
   void recv_succeed( bool& terminate, size_t req_len, size_t real_len );
   void send_succeed( bool& terminate );
@@ -73,10 +74,15 @@ void Https_server_connection::accept_succeed()
 
 
 void Https_server_connection::recv_succeed( bool&, size_t, size_t real_len )
+{
+  process_input( std::string(read_buf(), real_len) );
+}
+
+
+void Https_server_connection::process_input( const std::string& s )
 {
   try
   {
-    std::string s( read_buf(), real_len );
     http::Packet* packet = read_request( s );
 
     if( !packet )
@@ -101,10 +107,12 @@ void Https_server_connection::send_succeed( bool& terminate )
 {
   response = std::string();
 
-  if( keep_alive )
-    my_reg_recv();
-  else
+  if( !keep_alive )
     terminate = reg_shutdown();
+  else if( preader.has_rest() )
+    process_input( std::string() );
+  else
+    my_reg_recv();
 }
 
 #ifdef _MSC_VER
-- 
2.43.0


From 66e2147631b39b40ba44e9ef842d4f6a4eed2368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:35 +0000
Subject: [PATCH 18/70] fix: close the sockets of clients the firewall refuses

A refused client's descriptor was never closed, and an error while sending
the refusal message ended the server loop.
---
 libiqxmlrpc/acceptor.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..acdc4c6 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -57,13 +57,20 @@ void Acceptor::accept()
   {
     std::string msg = firewall->message();
 
-    if (!msg.empty())
+    try {
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
+    }
+    catch( const network_error& )
     {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
+      // The client is gone already.
     }
 
+    new_sock.close();
     return;
   }
 
-- 
2.43.0


From 6e20ee215523f7b59b273d7d0d2b5f511af0b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:46 +0000
Subject: [PATCH 19/70] fix: survive a failing accept() or connection set-up

An aborted connection, a lack of descriptors or an error while preparing
the new socket ended the server loop for all clients.
---
 libiqxmlrpc/acceptor.cc    | 15 ++++++++++++++-
 libiqxmlrpc/conn_factory.h | 19 ++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index acdc4c6..cb368d4 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -9,6 +9,8 @@
 #include "inet_addr.h"
 #include "net_except.h"
 
+#include <memory>
+
 using namespace iqnet;
 
 
@@ -51,7 +53,18 @@ inline void Acceptor::listen()
 
 void Acceptor::accept()
 {
-  Socket new_sock( sock.accept() );
+  std::auto_ptr<Socket> accepted;
+
+  try {
+    accepted.reset( new Socket(sock.accept()) );
+  }
+  catch( const network_error& )
+  {
+    // The client is gone or there are no resources for it: go on with others.
+    return;
+  }
+
+  Socket& new_sock = *accepted;
 
   if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
   {
diff --git a/libiqxmlrpc/conn_factory.h b/libiqxmlrpc/conn_factory.h
index 620ad62..2c36b05 100644
--- a/libiqxmlrpc/conn_factory.h
+++ b/libiqxmlrpc/conn_factory.h
@@ -5,6 +5,9 @@
 #define _libiqnet_connection_factory_
 
 #include "inet_addr.h"
+#include "net_except.h"
+
+#include <memory>
 
 namespace iqnet
 {
@@ -23,9 +26,19 @@ class Serial_conn_factory: public Accepted_conn_factory {
 public:
   void create_accepted( const Socket& sock )
   {
-    Conn_type* c = new Conn_type( sock );
-    post_create( c );
-    c->post_accept();
+    std::auto_ptr<Conn_type> c( new Conn_type( sock ) );
+    post_create( c.get() );
+
+    try {
+      c->post_accept();
+    }
+    catch( const network_error& )
+    {
+      // Drop this connection, it must not affect others.
+      return;
+    }
+
+    c.release();
   }
 
   virtual void post_create( Conn_type* ) {}
-- 
2.43.0


From 6cf2b0b1ff32e2bad581bd3b13acfb1237a6f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:51 +0000
Subject: [PATCH 20/70] fix: free the factory of a method that is registered
 again

---
 libiqxmlrpc/dispatcher_manager.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/dispatcher_manager.cc b/libiqxmlrpc/dispatcher_manager.cc
index 1794be5..21fd7ea 100644
--- a/libiqxmlrpc/dispatcher_manager.cc
+++ b/libiqxmlrpc/dispatcher_manager.cc
@@ -41,7 +41,12 @@ Default_method_dispatcher::~Default_method_dispatcher()
 void Default_method_dispatcher::register_method
   ( const std::string& name, Method_factory_base* fb )
 {
-  fs[name] = fb;
+  Method_factory_base*& f = fs[name];
+
+  if( f != fb )
+    delete f;
+
+  f = fb;
 }
 
 Method* Default_method_dispatcher::do_create_method(const std::string& name)
-- 
2.43.0


From 5def7025f7cd7a5b3b4aa347f647fe5c79f0528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:56 +0000
Subject: [PATCH 21/70] fix: close the sockets of the reactor interrupter

The listening socket and the sending end stayed open for ever.
---
 libiqxmlrpc/reactor_interrupter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..2045008 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -42,7 +42,7 @@ private:
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
-  ~Impl() {}
+  ~Impl() { client_.close(); }
 
   void make_interrupt();
 
@@ -62,6 +62,7 @@ Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
   Inet_addr srv_addr(srv.get_addr());
   client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
   Socket srv_conn(srv.accept());
+  srv.close();
 
   server_.reset(new Interrupter_connection(reactor, srv_conn));
 }
-- 
2.43.0


From 474e496fd597ef9ed4e0826496138758d17492ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:08 +0000
Subject: [PATCH 22/70] fix: close the sockets of a server that could not be
 set up

An address in use or a lack of descriptors left the sockets opened so far
behind each time the server was created or run.
---
 libiqxmlrpc/acceptor.cc            | 12 ++++++++++--
 libiqxmlrpc/reactor_interrupter.cc | 25 +++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index cb368d4..4325125 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -19,8 +19,16 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
+  try {
+    sock.bind( bind_addr );
+    listen();
+  }
+  catch( ... )
+  {
+    sock.close();
+    throw;
+  }
+
   reactor->register_handler( this, Reactor_base::INPUT );
 }
 
diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 2045008..93edf92 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -47,6 +47,8 @@ public:
   void make_interrupt();
 
 private:
+  void connect(Reactor_base* reactor, Socket& srv);
+
   std::auto_ptr<Interrupter_connection> server_;
   Socket client_;
   boost::mutex lock_;
@@ -55,14 +57,33 @@ private:
 
 Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
 {
-  Socket srv;
+  try {
+    Socket srv;
+
+    try {
+      connect(reactor, srv);
+    }
+    catch (...) {
+      srv.close();
+      throw;
+    }
+
+    srv.close();
+  }
+  catch (...) {
+    client_.close();
+    throw;
+  }
+}
+
+void Reactor_interrupter::Impl::connect(Reactor_base* reactor, Socket& srv)
+{
   srv.bind(Inet_addr("127.0.0.1", 0)); // bind to port 0, which means any port beyond 1024
   srv.listen(1);
 
   Inet_addr srv_addr(srv.get_addr());
   client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
   Socket srv_conn(srv.accept());
-  srv.close();
 
   server_.reset(new Interrupter_connection(reactor, srv_conn));
 }
-- 
2.43.0


From ddb5306e361d798c82ce984a7e4d68da302b56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:36 +0000
Subject: [PATCH 23/70] fix: keep the remaining interest when one kind of event
 is unregistered

Reactor::unregister_handler(handler, mask) cleared the whole interest
of the handler because of a logical instead of a bitwise negation.
---
 libiqxmlrpc/reactor_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..1eafbf0 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -133,7 +133,7 @@ void Reactor<Lock>::unregister_handler( Event_handler* eh, Event_mask mask )
 
   if( i != end() )
   {
-    int newmask = (i->mask &= !mask);
+    int newmask = (i->mask &= ~mask);
 
     if( !newmask )
     {
-- 
2.43.0


From f9c75b7aaa7fa7106b45eaaee6cb2aa4c2369edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:13 +0000
Subject: [PATCH 24/70] fix: count a stopper once however often it is
 registered

Adding a second kind of interest for a stopper counted it again, so that
the reactor claimed to have no handlers although another one was there.
---
 libiqxmlrpc/reactor_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 1eafbf0..f3bbb58 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -108,13 +108,13 @@ void Reactor<Lock>::register_handler( Event_handler* eh, Event_mask mask )
 {
   scoped_lock lk(lock);
 
-  if (eh->is_stopper())
-    num_stoppers++;
-
   Socket::Handler fd = eh->get_handler();
 
   if( handlers.find(fd) == handlers.end() )
   {
+    if (eh->is_stopper())
+      num_stoppers++;
+
     handlers_states.push_back( HandlerState(fd, mask) );
     handlers[fd] = eh;
   }
-- 
2.43.0


From 34eb9122d31731c8c11743ecd83aa982a2c9cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:00 +0000
Subject: [PATCH 25/70] fix: wait on when poll() or select() is interrupted by
 a signal

An interrupted call was taken for a finished one: the reactor reported
an event that had not happened, with select() even for every registered
handler. Wait for the rest of the time instead. The select() timeout is
given in seconds and microseconds, long timeouts overflowed.
---
 libiqxmlrpc/reactor_poll_impl.cc   | 31 ++++++++++++++------
 libiqxmlrpc/reactor_select_impl.cc | 46 +++++++++++++++++++-----------
 2 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/libiqxmlrpc/reactor_poll_impl.cc b/libiqxmlrpc/reactor_poll_impl.cc
index 13bedc4..292c63f 100644
--- a/libiqxmlrpc/reactor_poll_impl.cc
+++ b/libiqxmlrpc/reactor_poll_impl.cc
@@ -6,6 +6,9 @@
 #ifdef HAVE_POLL
 #include "reactor_poll_impl.h"
 
+#include <boost/date_time/posix_time/posix_time.hpp>
+
+#include <algorithm>
 #include <deque>
 #include <sys/poll.h>
 #include <vector>
@@ -44,21 +47,31 @@ void Reactor_poll_impl::reset(const HandlerStateList& in)
 
 bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
 {
-  do {
-    int code = ::poll( &impl->pfd[0], impl->pfd.size(), to_ms );
+  using namespace boost::posix_time;
 
-    if( code < 0 )
-    {
-      if (errno == EINTR)
-        continue;
+  const ptime start = microsec_clock::universal_time();
+  Reactor_base::Timeout left = to_ms;
 
-      throw network_error( "poll()" );
-    }
+  for(;;)
+  {
+    int code = ::poll( &impl->pfd[0], impl->pfd.size(), left );
+
+    if( code > 0 )
+      break;
 
     if( !code )
       return false;
 
-  } while (false);
+    if( errno != EINTR )
+      throw network_error( "poll()" );
+
+    // interrupted by a signal, wait for the rest of the time
+    if( to_ms > 0 )
+    {
+      const long passed = (microsec_clock::universal_time() - start).total_milliseconds();
+      left = to_ms - static_cast<int>(std::min<long>(std::max<long>(passed, 0), to_ms));
+    }
+  }
 
   for( unsigned i = 0; i < impl->pfd.size(); i++ )
   {
diff --git a/libiqxmlrpc/reactor_select_impl.cc b/libiqxmlrpc/reactor_select_impl.cc
index 77e33f8..156b1e0 100644
--- a/libiqxmlrpc/reactor_select_impl.cc
+++ b/libiqxmlrpc/reactor_select_impl.cc
@@ -6,6 +6,10 @@
 #ifndef HAVE_POLL
 #include "reactor_select_impl.h"
 
+#include <boost/date_time/posix_time/posix_time.hpp>
+
+#include <algorithm>
+
 using namespace iqnet;
 
 typedef Reactor_base::HandlerStateList HandlerStateList;
@@ -40,31 +44,41 @@ void Reactor_select_impl::reset(const HandlerStateList& in)
 
 bool Reactor_select_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
 {
-  struct timeval tv;
-  struct timeval *ptv = 0;
+  using namespace boost::posix_time;
 
-  if( to_ms >= 0 )
-  {
-    tv.tv_sec = 0;
-    tv.tv_usec = to_ms * 1000;
-    ptv = &tv;
-  }
+  const ptime start = microsec_clock::universal_time();
+  Reactor_base::Timeout left = to_ms;
 
-  do {
-    int code = ::select( static_cast<int>(max_fd+1), &read_set, &write_set, &err_set, ptv );
+  for(;;)
+  {
+    struct timeval tv;
+    struct timeval *ptv = 0;
 
-    if( code < 0 )
+    if( to_ms >= 0 )
     {
-      if (errno == EINTR)
-        continue;
-
-      throw network_error( "select()" );
+      tv.tv_sec = left / 1000;
+      tv.tv_usec = left % 1000 * 1000;
+      ptv = &tv;
     }
 
+    int code = ::select( static_cast<int>(max_fd+1), &read_set, &write_set, &err_set, ptv );
+
+    if( code > 0 )
+      break;
+
     if( !code )
       return false;
 
-  } while (false);
+    if( errno != EINTR )
+      throw network_error( "select()" );
+
+    // interrupted by a signal, the sets are unchanged: wait for the rest of the time
+    if( to_ms > 0 )
+    {
+      const long passed = (microsec_clock::universal_time() - start).total_milliseconds();
+      left = to_ms - static_cast<int>(std::min<long>(std::max<long>(passed, 0), to_ms));
+    }
+  }
 
   for( HandlerStateList::const_iterator i = hs.begin(); i != hs.end(); ++i )
   {
-- 
2.43.0


From ad4c7aa1fc75ea11d98adf91943849e80725c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:28 +0000
Subject: [PATCH 26/70] fix: do not invoke handlers which were unregistered
 meanwhile

A handler invoked by the reactor can unregister another one, or some of
its interest, whose event is to be delivered in the same round. The
reactor dereferenced a null pointer then, or delivered the event.
---
 libiqxmlrpc/reactor_impl.h         | 21 +++++++++++++++------
 libiqxmlrpc/reactor_poll_impl.cc   |  2 ++
 libiqxmlrpc/reactor_select_impl.cc |  1 +
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index f3bbb58..36d50d4 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -59,7 +59,7 @@ private:
   hs_const_iterator end()   const { return handlers_states.end(); }
   hs_iterator       end()         { return handlers_states.end(); }
 
-  Event_handler* find_handler(Socket::Handler);
+  Event_handler* find_handler(HandlerState&);
   hs_iterator find_handler_state(Event_handler*);
 
   void handle_user_events();
@@ -96,11 +96,17 @@ Reactor<Lock>::find_handler_state(Event_handler* eh)
 }
 
 template <class Lock>
-iqnet::Event_handler* Reactor<Lock>::find_handler(Socket::Handler fd)
+iqnet::Event_handler* Reactor<Lock>::find_handler(HandlerState& hs)
 {
   scoped_lock lk(lock);
-  h_iterator i = handlers.find(fd);
-  return i == handlers.end() ? NULL : i->second;
+  hs_iterator i = std::find(begin(), end(), hs);
+
+  if( i == end() )
+    return NULL;
+
+  // forget events which the handler was interested in but is not anymore
+  hs.revents &= ~(hs.mask & ~i->mask);
+  return hs.revents ? handlers[hs.fd] : NULL;
 }
 
 template <class Lock>
@@ -209,8 +215,11 @@ void Reactor<Lock>::invoke_event_handler( Reactor_base::HandlerState& hs )
 {
   bool terminate = false;
 
-  Event_handler* handler = find_handler(hs.fd);
-  assert(handler);
+  Event_handler* handler = find_handler(hs);
+
+  // handlers invoked before could have unregistered this one
+  if( !handler )
+    return;
 
   if( handler->catch_in_reactor() )
     invoke_servers_handler( handler, hs, terminate );
diff --git a/libiqxmlrpc/reactor_poll_impl.cc b/libiqxmlrpc/reactor_poll_impl.cc
index 292c63f..61db8ef 100644
--- a/libiqxmlrpc/reactor_poll_impl.cc
+++ b/libiqxmlrpc/reactor_poll_impl.cc
@@ -78,6 +78,8 @@ bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
     if( impl->pfd[i].revents )
     {
       Reactor_base::HandlerState hs(impl->pfd[i].fd);
+      hs.mask |= impl->pfd[i].events & POLLIN  ? Reactor_base::INPUT : 0;
+      hs.mask |= impl->pfd[i].events & POLLOUT ? Reactor_base::OUTPUT : 0;
       hs.revents |= impl->pfd[i].revents & POLLIN  ? Reactor_base::INPUT : 0;
       hs.revents |= impl->pfd[i].revents & POLLOUT ? Reactor_base::OUTPUT : 0;
       hs.revents |= impl->pfd[i].revents & POLLERR ? Reactor_base::OUTPUT : 0;
diff --git a/libiqxmlrpc/reactor_select_impl.cc b/libiqxmlrpc/reactor_select_impl.cc
index 156b1e0..d53722a 100644
--- a/libiqxmlrpc/reactor_select_impl.cc
+++ b/libiqxmlrpc/reactor_select_impl.cc
@@ -90,6 +90,7 @@ bool Reactor_select_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_m
     if( revents )
     {
       Reactor_base::HandlerState h( i->fd );
+      h.mask = i->mask;
       h.revents = revents;
       out.push_back( h );
     }
-- 
2.43.0


From 5d54a59140747c670639e49662c0b9171abf417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:29 +0000
Subject: [PATCH 27/70] fix: deliver announced events only to handlers
 interested in them

Reactor::handle_user_events mixed up bitwise and logical operators.
---
 libiqxmlrpc/reactor_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 36d50d4..46a9ee8 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -241,10 +241,11 @@ void Reactor<Lock>::handle_user_events()
 
   for( hs_iterator i = begin(); i != end(); ++i )
   {
-    if( i->revents && (i->mask | i->revents) )
+    if( i->mask & i->revents )
     {
       called_by_user.push_back( *i );
-      i->revents &= !i->mask;
+      called_by_user.back().revents &= i->mask;
+      i->revents &= ~i->mask;
     }
   }
 
-- 
2.43.0


From 093432b6ddafb0777f0f4741e7089551d7477b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:13 +0000
Subject: [PATCH 28/70] fix: take the lock to look at the handlers of a reactor

Worker threads register handlers while the reactor counts them.
---
 libiqxmlrpc/reactor_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 46a9ee8..169bd6d 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -290,11 +290,15 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
-  if (handlers.empty())
-    return false;
+  {
+    scoped_lock lk(lock);
 
-  if (handlers.size() - num_stoppers <= 0)
-    throw No_handlers();
+    if (handlers.empty())
+      return false;
+
+    if (handlers.size() - num_stoppers <= 0)
+      throw No_handlers();
+  }
 
   handle_user_events();
   return handle_system_events(ms);
-- 
2.43.0


From 8ed867b658fd9e2241a7ebf7045c0bf9ae4cfa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:19 +0000
Subject: [PATCH 29/70] fix: make the exit flag of a server atomic

It is set by other threads while the server loop reads it.
---
 libiqxmlrpc/server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 180eb55..8629923 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -1,6 +1,7 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
+#include <boost/atomic.hpp>
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
 #include <memory>
@@ -29,7 +30,7 @@ public:
   std::auto_ptr<iqnet::Acceptor>              acceptor;
   iqnet::Firewall_base* firewall;
 
-  bool exit_flag;
+  boost::atomic<bool> exit_flag;
   std::ostream* log;
   size_t max_req_sz;
   http::Verification_level ver_level;
-- 
2.43.0


From 86d16a16583581d25ff27fcf5b6939a1dcc2f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:45 +0000
Subject: [PATCH 30/70] fix: let pool threads notice that the pool is being
 destroyed

A thread which was not waiting yet when the destructor sent its
notification waited forever, and so did the destructor.
---
 libiqxmlrpc/executor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..8bd4b37 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -99,6 +99,10 @@ void Pool_executor_factory::Pool_thread::operator ()()
 
     if (pool->req_queue.empty())
     {
+      // the notification could have been sent before this thread started to wait
+      if (pool->is_being_destructed())
+        return;
+
       pool->req_queue_cond.wait(lk);
 
       if (pool->is_being_destructed())
-- 
2.43.0


From 64fb551dfe0ba64540a1aec500eaa1eefbf26e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:53 +0000
Subject: [PATCH 31/70] fix: avoid a deadlock between the destructor of a pool
 and its threads

The destructor took the lock of the queue while it held the lock of the
destruction flag, the threads of the pool take them the other way round.
---
 libiqxmlrpc/executor.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8bd4b37..bcd456c 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -174,10 +174,13 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
-  scoped_lock lk_(req_queue_lock);
+  // pool threads take these locks in the opposite order
+  scoped_lock lk(req_queue_lock);
   req_queue_cond.notify_all();
 }
 
-- 
2.43.0


From cbf112d132cd0dcb6f6ca16409e55bc5d7966717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:48 +0000
Subject: [PATCH 32/70] fix: do not reuse a kept connection after a failed call

With keep-alive on, the connection stayed cached when a call ended with
an exception, so the next calls failed again or read the late reply of
the failed one.
---
 libiqxmlrpc/client.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..116a068 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -137,7 +137,17 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try
+  {
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... )
+  {
+    // State of a connection is undefined after
+    // a failure, next call must not reuse it.
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 8dd288d29b31805f42e9ff65fbce55274271b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:21 +0000
Subject: [PATCH 33/70] fix: read a reply as it arrives instead of until a
 short read

A reply that filled the read buffer made the client read again from a
drained socket and fail with EAGAIN.
---
 libiqxmlrpc/http_client.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..bddcfd3 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,11 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
-- 
2.43.0


From 20b4d61b11631855b79aa0c9f7da25b3293bdaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:11 +0000
Subject: [PATCH 34/70] fix: a failed name lookup must not be remembered as
 0.0.0.0

The address was marked as resolved before the lookup, so after a failure
the next use of the same address object connected to 0.0.0.0:0.
---
 libiqxmlrpc/inet_addr.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..fe76ca7 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -92,12 +92,13 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
+  SystemSockAddrIn resolved = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
-  sa->sin_family = PF_INET;
-  sa->sin_port = htons(port);
-  memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
+  resolved.sin_family = PF_INET;
+  resolved.sin_port = htons(port);
+  memcpy( (char*)&(resolved.sin_addr), (char*)hent->h_addr, hent->h_length );
+  sa = resolved;
 }
 
 Inet_addr::Inet_addr( const std::string& host, int port ):
-- 
2.43.0


From c84b7c7ae7dc781ad016ef096d4428b86cbef69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:10 +0000
Subject: [PATCH 35/70] fix: resolve names with many addresses

The fixed 1024 byte buffer made gethostbyname_r fail with ERANGE for a
host with a longer record.
---
 libiqxmlrpc/inet_addr.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index fe76ca7..8a9ca1b 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -5,6 +5,9 @@
 #include "inet_addr.h"
 #include "net_except.h"
 
+#include <cerrno>
+#include <vector>
+
 namespace iqnet {
 
 std::string get_host_name()
@@ -28,7 +31,7 @@ std::string get_host_name()
 #if !defined(IQXMLRPC_GETHOSTBYNAME)
 #define IQXMLRPC_GETHOSTBYNAME_PREP \
   struct hostent hent_local; \
-  char buf[1024]; \
+  std::vector<char> buf(1024); \
   int local_h_errno = 0;
 #endif
 
@@ -42,14 +45,15 @@ std::string get_host_name()
 #if defined(__sun) || defined(sun)
 #define IQXMLRPC_GETHOSTBYNAME(_h) \
   IQXMLRPC_GETHOSTBYNAME_PREP \
-  hent = ::gethostbyname_r( _h), &hent_local, buf, sizeof(buf), &local_h_errno ); \
+  hent = ::gethostbyname_r( _h), &hent_local, &buf[0], buf.size(), &local_h_errno ); \
   IQXMLRPC_GETHOSTBYNAME_POST
 #endif
 
 #if !defined(IQXMLRPC_GETHOSTBYNAME)
 #define IQXMLRPC_GETHOSTBYNAME(_h) \
   IQXMLRPC_GETHOSTBYNAME_PREP \
-  ::gethostbyname_r( _h, &hent_local, buf, sizeof(buf), &hent, &local_h_errno ); \
+  while( ::gethostbyname_r( _h, &hent_local, &buf[0], buf.size(), &hent, &local_h_errno ) == ERANGE ) \
+    buf.resize( buf.size() * 2 ); \
   IQXMLRPC_GETHOSTBYNAME_POST
 #endif
 
-- 
2.43.0


From 8e48a95adb4177600257b15902bbab3c6715b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:46 +0000
Subject: [PATCH 36/70] fix: copies of an address may be resolved from
 different threads

Copies of Inet_addr share the lazily resolved address, the first use was
not synchronised.
---
 libiqxmlrpc/inet_addr.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 8a9ca1b..ba18c3c 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -2,6 +2,7 @@
 //  Copyright (C) 2011 Anton Dedov
 
 #include <boost/optional.hpp>
+#include <boost/thread/mutex.hpp>
 #include "inet_addr.h"
 #include "net_except.h"
 
@@ -60,6 +61,7 @@ std::string get_host_name()
 typedef struct sockaddr_in SystemSockAddrIn;
 
 struct Inet_addr::Impl {
+  mutable boost::mutex lock; // Impl is shared between copies of Inet_addr
   mutable boost::optional<SystemSockAddrIn> sa;
   std::string host;
   int port;
@@ -123,6 +125,8 @@ Inet_addr::Inet_addr( const SystemSockAddrIn& sa ):
 const SystemSockAddrIn*
 Inet_addr::get_sockaddr() const
 {
+  boost::mutex::scoped_lock lk(impl_->lock);
+
   if (!impl_->sa) {
     impl_->init_sockaddr();
   }
-- 
2.43.0


From c50977cfd887b92d04a397cb5b36dbf784eaaa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:36 +0000
Subject: [PATCH 37/70] fix: connect to the proxy set for a client with a kept
 connection

A connection kept from before set_proxy() was reused, so the calls went
on past the proxy.
---
 libiqxmlrpc/client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index 116a068..1511fea 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -98,6 +98,7 @@ Client_base::~Client_base()
 void Client_base::set_proxy( const iqnet::Inet_addr& addr )
 {
   do_set_proxy( addr );
+  impl_->conn_cache.reset(); // it does not lead to the proxy
 }
 
 void Client_base::set_timeout( int seconds )
-- 
2.43.0


From b067162fa2a342b5eaa11b63cadeac93a54392e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:17 +0000
Subject: [PATCH 38/70] fix: refuse line breaks in X- headers of a request

A header value with CR or LF could add headers or a body to the request.
---
 libiqxmlrpc/http.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 6db6494..48f2ae6 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -287,6 +287,9 @@ void Header::get_xheaders(iqxmlrpc::XHeaders& xheaders) const
 void Header::set_xheaders(const iqxmlrpc::XHeaders& xheaders)
 {
   for( iqxmlrpc::XHeaders::const_iterator it = xheaders.begin(); it!=xheaders.end(); ++it ) {
+    if( (it->first + it->second).find_first_of("\r\n") != std::string::npos )
+      throw iqxmlrpc::Error_xheader("The header must not contain CR LF characters");
+
     set_option(it->first, it->second);
   }
 }
-- 
2.43.0


From 33420fca751228eac7d40a380d6122a17268576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:36 +0000
Subject: [PATCH 39/70] fix: close the socket when connecting to a server fails

A connection refused at once, a failed name lookup and a failure to
make the socket non-blocking left the descriptor open.
---
 libiqxmlrpc/connector.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..79565bb 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -19,7 +19,13 @@ struct Connect_processor: public Event_handler {
   Connect_processor(Reactor_base& r):
     reactor(r)
   {
-    sock.set_non_blocking(true);
+    try {
+      sock.set_non_blocking(true);
+    }
+    catch (...) {
+      sock.close();
+      throw;
+    }
   }
 
   Socket::Handler get_handler() const
@@ -32,10 +38,8 @@ struct Connect_processor: public Event_handler {
     terminate = true;
     int err = sock.get_last_error();
 
-    if (err && err != IQXMLRPC_INPROGRESS) {
-      sock.close();
+    if (err && err != IQXMLRPC_INPROGRESS)
       throw network_error("Connector", true, err);
-    }
   }
 };
 
@@ -53,17 +57,19 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
-
-  if (done)
-    return create_connection( connector.sock );
 
-  reactor.register_handler( &connector, Reactor_base::OUTPUT );
+  try {
+    if (!connector.sock.connect( peer_addr )) {
+      reactor.register_handler( &connector, Reactor_base::OUTPUT );
 
-  int ms = timeout > 0 ? timeout*1000 : -1;
-  if (!reactor.handle_events(ms)) {
+      int ms = timeout > 0 ? timeout*1000 : -1;
+      if (!reactor.handle_events(ms))
+        throw iqxmlrpc::Client_timeout();
+    }
+  }
+  catch (...) {
     connector.sock.close();
-    throw iqxmlrpc::Client_timeout();
+    throw;
   }
 
   return create_connection( connector.sock );
-- 
2.43.0


From bd7be4fcad1fb74d93216dd7a31638cdcde2d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:45 +0000
Subject: [PATCH 40/70] fix: errors of OpenSSL without a reason string do not
 end the process

ERR_reason_error_string() returns NULL for system errors with OpenSSL 3.
Constructing a string of it threw out of a function declared throw().
---
 libiqxmlrpc/ssl_lib.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..53dad41 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -139,6 +139,13 @@ iqxmlrpc_SSL_verify(int prev_ok, X509_STORE_CTX* ctx)
   return v->verify(prev_ok, ctx);
 }
 
+std::string
+error_reason(unsigned long err)
+{
+  const char* reason = ERR_reason_error_string(err);
+  return reason ? reason : "unknown error";
+}
+
 } // anonymous namespace
 
 //
@@ -262,7 +269,7 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 // ----------------------------------------------------------------------------
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( error_reason(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +277,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( error_reason(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From e08787540cfc812f5eb277486281a11ee09a3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:52 +0000
Subject: [PATCH 41/70] fix: https client reports a session closed by the
 server as an error

It was reported as a timeout even when no timeout was set.
---
 libiqxmlrpc/https_client.cc | 21 +++++++++++++++++++++
 libiqxmlrpc/https_client.h  |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..a38dc00 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -150,6 +150,27 @@ http::Packet* Https_client_connection::do_process_session( const std::string& s
 }
 
 
+void Https_client_connection::check_closed( bool terminate )
+{
+  if( terminate )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+}
+
+
+void Https_client_connection::handle_input( bool& terminate )
+{
+  iqnet::ssl::Reaction_connection::handle_input( terminate );
+  check_closed( terminate );
+}
+
+
+void Https_client_connection::handle_output( bool& terminate )
+{
+  iqnet::ssl::Reaction_connection::handle_output( terminate );
+  check_closed( terminate );
+}
+
+
 void Https_client_connection::connect_succeed()
 {
   established = true;
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..d6fac57 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -59,6 +59,9 @@ public:
     iqnet::ssl::Reaction_connection::post_connect();
   }
 
+  void handle_input( bool& );
+  void handle_output( bool& );
+
   void connect_succeed();
   void send_succeed( bool& );
   void recv_succeed( bool&, size_t req_len, size_t real_len  );
@@ -68,6 +71,7 @@ protected:
   http::Packet* do_process_session( const std::string& );
 
 private:
+  void check_closed( bool terminate );
   void reg_send_request();
 };
 
-- 
2.43.0


From b672753bde96e9db9898111c207191af843840e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:56 +0000
Subject: [PATCH 42/70] fix: release a TLS connection whose shutdown turns out
 to be complete

When the peer closes the session and the answer to that cannot be sent
anymore, nothing was left to wait for and the connection stayed forever.
---
 libiqxmlrpc/ssl_connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 8eb4624..51a4d86 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -200,7 +200,7 @@ void ssl::Reaction_connection::switch_state( bool& terminate )
   catch( const ssl::connection_close& )
   {
 //    std::cout << "connection_close " << e.is_clean() << std::endl;
-    reg_shutdown();
+    terminate = reg_shutdown();
   }
 }
 
-- 
2.43.0


From 7453a0bc0a3f803a4bd91b60eea8720343db7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:06 +0000
Subject: [PATCH 43/70] fix: failure to set up one TLS connection does not stop
 the server

---
 libiqxmlrpc/conn_factory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/conn_factory.h b/libiqxmlrpc/conn_factory.h
index 2c36b05..a6741f5 100644
--- a/libiqxmlrpc/conn_factory.h
+++ b/libiqxmlrpc/conn_factory.h
@@ -26,10 +26,11 @@ class Serial_conn_factory: public Accepted_conn_factory {
 public:
   void create_accepted( const Socket& sock )
   {
-    std::auto_ptr<Conn_type> c( new Conn_type( sock ) );
-    post_create( c.get() );
+    std::auto_ptr<Conn_type> c;
 
     try {
+      c.reset( new Conn_type( sock ) );
+      post_create( c.get() );
       c->post_accept();
     }
     catch( const network_error& )
-- 
2.43.0


From f3c1cf2c4ee0ce9b6ef47700823292605dddfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:10 +0000
Subject: [PATCH 44/70] fix: writing to a broken TLS connection does not kill
 the process

OpenSSL writes with write(), which raises SIGPIPE when the peer has
closed its end. Send with MSG_NOSIGNAL like plain connections do.
---
 libiqxmlrpc/ssl_connection.cc | 62 ++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 51a4d86..03c4c04 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -1,11 +1,71 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
+#include <openssl/bio.h>
 #include <openssl/err.h>
 #include "ssl_connection.h"
 
 using namespace iqnet;
 
+namespace {
+
+#if defined(MSG_NOSIGNAL) && OPENSSL_VERSION_NUMBER >= 0x10100000L
+
+//! Same as for a socket BIO, but does not raise SIGPIPE.
+int nopipe_write( BIO* bio, const char* data, int len )
+{
+  int fd = static_cast<int>( BIO_get_fd(bio, 0) );
+  int ret = static_cast<int>( ::send(fd, data, len, MSG_NOSIGNAL) );
+
+  BIO_clear_retry_flags( bio );
+  if( ret <= 0 && BIO_sock_should_retry(ret) )
+    BIO_set_retry_write( bio );
+
+  return ret;
+}
+
+BIO_METHOD* create_nopipe_method()
+{
+  const BIO_METHOD* sock = BIO_s_socket();
+  BIO_METHOD* m = BIO_meth_new( BIO_TYPE_SOCKET, "socket" );
+
+  if( m )
+  {
+    BIO_meth_set_write( m, nopipe_write );
+    BIO_meth_set_read( m, BIO_meth_get_read(sock) );
+    BIO_meth_set_puts( m, BIO_meth_get_puts(sock) );
+    BIO_meth_set_ctrl( m, BIO_meth_get_ctrl(sock) );
+    BIO_meth_set_create( m, BIO_meth_get_create(sock) );
+    BIO_meth_set_destroy( m, BIO_meth_get_destroy(sock) );
+  }
+
+  return m;
+}
+
+bool set_socket( SSL* ssl, int fd )
+{
+  static BIO_METHOD* method = create_nopipe_method();
+  BIO* bio = method ? BIO_new( method ) : 0;
+
+  if( !bio )
+    return false;
+
+  BIO_set_fd( bio, fd, BIO_NOCLOSE );
+  SSL_set_bio( ssl, bio, bio );
+  return true;
+}
+
+#else
+
+bool set_socket( SSL* ssl, int fd )
+{
+  return SSL_set_fd( ssl, fd ) != 0;
+}
+
+#endif
+
+} // anonymous namespace
+
 ssl::Connection::Connection( const Socket& s ):
   iqnet::Connection( s ),
   ssl_ctx( ssl::ctx )
@@ -18,7 +78,7 @@ ssl::Connection::Connection( const Socket& s ):
   if( !ssl )
     throw ssl::exception();
 
-  if( !SSL_set_fd( ssl, static_cast<int>(sock.get_handler()) ) )
+  if( !set_socket( ssl, static_cast<int>(sock.get_handler()) ) )
     throw ssl::exception();
 }
 
-- 
2.43.0


From 063d9be7fe38e306d1501a8d1c13951c65874a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:13 +0000
Subject: [PATCH 45/70] fix: errors of one TLS connection are not taken for
 errors of another

SSL_get_error() looks at the error queue of the thread, which may still
hold errors of a connection that failed before.
---
 libiqxmlrpc/ssl_connection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 03c4c04..58805e9 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -104,6 +104,7 @@ void ssl::Connection::post_connect()
 void ssl::Connection::ssl_accept()
 {
   ssl_ctx->prepare_verify(ssl, true);
+  ERR_clear_error();
   int ret = SSL_accept( ssl );
 
   if( ret != 1 )
@@ -114,6 +115,7 @@ void ssl::Connection::ssl_accept()
 void ssl::Connection::ssl_connect()
 {
   ssl_ctx->prepare_verify(ssl, false);
+  ERR_clear_error();
   int ret = SSL_connect( ssl );
 
   if( ret != 1 )
@@ -126,6 +128,7 @@ void ssl::Connection::shutdown()
   if( shutdown_recved() && shutdown_sent() )
     return;
 
+  ERR_clear_error();
   int ret = SSL_shutdown( ssl );
   switch( ret )
   {
@@ -145,6 +148,7 @@ void ssl::Connection::shutdown()
 
 size_t ssl::Connection::send( const char* data, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_write( ssl, data, static_cast<int>(len) );
 
   if( static_cast<size_t>(ret) != len )
@@ -156,6 +160,7 @@ size_t ssl::Connection::send( const char* data, size_t len )
 
 size_t ssl::Connection::recv( char* buf, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_read( ssl, buf, static_cast<int>(len) );
 
   if( ret <= 0 )
-- 
2.43.0


From 3d6f99f74baa512edd0a455f15cb0a87da0e1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:55 +0000
Subject: [PATCH 46/70] fix: the answer of a proxy needs no content length

---
 libiqxmlrpc/http.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 48f2ae6..fe7a394 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -466,7 +466,9 @@ Packet* Packet_reader::read_packet( const std::string& s, bool hdr_only )
     if (read_header(s))
     {
       header = new Header_type(ver_level_, header_cache);
-      check_sz( header_sz + header->content_length() );
+
+      if( pkt_max_sz )
+        check_sz( header_sz + header->content_length() );
     }
   }
   else
-- 
2.43.0


From 54c7efef31c2e0c4e570b664fef100fd7ac5af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:10 +0000
Subject: [PATCH 47/70] fix: https through a proxy

The TLS session was run by a second connection object which had no
options, shared the descriptor with the first one so that it was closed
twice, and was gone at the next call of a kept connection.
---
 libiqxmlrpc/https_client.cc | 60 ++++++++++++++++++-------------------
 libiqxmlrpc/https_client.h  | 51 ++++++++++++++++---------------
 2 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index a38dc00..3acdf02 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -42,23 +42,21 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   const iqnet::Socket& s,
   bool nb
 ):
-  Client_connection(),
-  Connection( s ),
-  reactor( new Reactor<Null_lock> ),
-  resp_packet(0),
-  non_blocking(nb)
+  Https_client_connection( s, nb ),
+  tunnel_ready(false)
 {
-  sock.set_non_blocking( nb );
 }
 
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
-
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.post_connect();
+  if( !tunnel_ready )
+  {
+    setup_tunnel();
+    tunnel_ready = true;
+    Https_client_connection::post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  return Https_client_connection::do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
@@ -66,48 +64,50 @@ void Https_proxy_client_connection::setup_tunnel()
   reactor->register_handler( this, Reactor_base::OUTPUT );
 
   Proxy_request_header h(opts().addr());
-  out_str = h.dump();
+  proxy_out_str = h.dump();
 
   do {
     int to = opts().timeout() >= 0 ? opts().timeout() * 1000 : -1;
     if( !reactor->handle_events(to) )
       throw Client_timeout();
   }
-  while( !resp_packet );
+  while( !proxy_packet );
 
   const http::Response_header* res_h =
-    static_cast<const http::Response_header*>(resp_packet->header());
+    static_cast<const http::Response_header*>(proxy_packet->header());
 
   if( res_h->code() != 200 )
     throw http::Error_response( res_h->phrase(), res_h->code() );
 }
 
-void Https_proxy_client_connection::handle_output( bool& )
+void Https_proxy_client_connection::handle_output( bool& terminate )
 {
-  size_t sz = send( out_str.c_str(), out_str.length() );
-  out_str.erase( 0, sz );
+  if( tunnel_ready )
+    return Https_client_connection::handle_output( terminate );
+
+  size_t sz = sock.send( proxy_out_str.c_str(), proxy_out_str.length() );
+  proxy_out_str.erase( 0, sz );
 
-  if( out_str.empty() )
+  if( proxy_out_str.empty() )
   {
     reactor->unregister_handler( this, Reactor_base::OUTPUT );
     reactor->register_handler( this, Reactor_base::INPUT );
   }
 }
 
-void Https_proxy_client_connection::handle_input( bool& )
+void Https_proxy_client_connection::handle_input( bool& terminate )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  if( tunnel_ready )
+    return Https_client_connection::handle_input( terminate );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  size_t sz = sock.recv( read_buf(), read_buf_sz() );
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
 
-  if( resp_packet )
-  {
+  proxy_packet.reset( read_response(std::string(read_buf(), sz), true) );
+
+  if( proxy_packet )
     reactor->unregister_handler( this );
-  }
 }
 
 //
@@ -117,9 +117,9 @@ void Https_proxy_client_connection::handle_input( bool& )
 Https_client_connection::Https_client_connection( const iqnet::Socket& s, bool nb ):
   Client_connection(),
   iqnet::ssl::Reaction_connection( s ),
-  reactor( new Reactor<Null_lock> ),
   resp_packet(0),
-  established(false)
+  established(false),
+  reactor( new Reactor<Null_lock> )
 {
   iqnet::ssl::Reaction_connection::sock.set_non_blocking( nb );
 }
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index d6fac57..cfdcd28 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -15,35 +15,13 @@
 namespace iqxmlrpc
 {
 
-//! XML-RPC \b HTTPS PROXY client connection.
-//! DO NOT USE IT IN YOUR CODE.
-class LIBIQXMLRPC_API Https_proxy_client_connection:
-  public iqxmlrpc::Client_connection,
-  public iqnet::Connection
-{
-public:
-  Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
-
-  void handle_input( bool& );
-  void handle_output( bool& );
-
-protected:
-  http::Packet* do_process_session( const std::string& );
-
-  void setup_tunnel();
-
-  boost::scoped_ptr<iqnet::Reactor_base> reactor;
-  boost::scoped_ptr<http::Packet> resp_packet;
-  bool non_blocking;
-  std::string out_str;
-};
+class Https_proxy_client_connection;
 
 //! XML-RPC \b HTTPS client's connection.
 class LIBIQXMLRPC_API Https_client_connection:
   public iqxmlrpc::Client_connection,
   public iqnet::ssl::Reaction_connection
 {
-  std::auto_ptr<iqnet::Reactor_base> reactor;
   http::Packet* resp_packet;
   std::string out_str;
   bool established;
@@ -67,14 +45,39 @@ public:
   void recv_succeed( bool&, size_t req_len, size_t real_len  );
 
 protected:
-  friend class Https_proxy_client_connection;
   http::Packet* do_process_session( const std::string& );
 
+  std::auto_ptr<iqnet::Reactor_base> reactor;
+
 private:
   void check_closed( bool terminate );
   void reg_send_request();
 };
 
+//! XML-RPC \b HTTPS PROXY client connection.
+//! DO NOT USE IT IN YOUR CODE.
+class LIBIQXMLRPC_API Https_proxy_client_connection:
+  public Https_client_connection
+{
+public:
+  Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+
+  //! SSL session starts when the tunnel is set up.
+  void post_connect() {}
+
+  void handle_input( bool& );
+  void handle_output( bool& );
+
+protected:
+  http::Packet* do_process_session( const std::string& );
+
+  void setup_tunnel();
+
+  bool tunnel_ready;
+  boost::scoped_ptr<http::Packet> proxy_packet;
+  std::string proxy_out_str;
+};
+
 } // namespace iqxmlrpc
 
 #endif
-- 
2.43.0


From 2faad51c268a8bb0d5d98d504151be9b1a9d0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:32:40 +0000
Subject: [PATCH 48/70] fix: messages of several threads do not mix in the
 server's log

---
 libiqxmlrpc/server.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 8629923..eb82a07 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -4,6 +4,7 @@
 #include <boost/atomic.hpp>
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <memory>
 
 #include "server.h"
@@ -32,6 +33,7 @@ public:
 
   boost::atomic<bool> exit_flag;
   std::ostream* log;
+  boost::mutex log_lock;
   size_t max_req_sz;
   http::Verification_level ver_level;
 
@@ -113,6 +115,7 @@ void Server::enable_introspection()
 
 void Server::log_errors( std::ostream* log_ )
 {
+  boost::mutex::scoped_lock lk( impl->log_lock );
   impl->log = log_;
 }
 
@@ -143,6 +146,9 @@ void Server::set_auth_plugin( const Auth_Plugin_base& ap )
 
 void Server::log_err_msg( const std::string& msg )
 {
+  // methods executed by a thread pool write here too
+  boost::mutex::scoped_lock lk( impl->log_lock );
+
   if( impl->log )
     *impl->log << msg << std::endl;
 }
-- 
2.43.0


From 88d2d5f061b9ea97d8a4a1617755ea842ca89228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:26 +0000
Subject: [PATCH 49/70] fix: the reason phrase of a reply is kept in full

---
 libiqxmlrpc/http.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index fe7a394..262de70 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -352,8 +352,9 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
     code_ = 0;
   }
 
-  if (resp_line.size() > 2)
-    phrase_ = resp_line[2];
+  // the phrase may have several words
+  resp_line.erase(resp_line.begin(), resp_line.begin() + 2);
+  phrase_ = boost::trim_right_copy(boost::join(resp_line, " "));
 }
 
 Response_header::Response_header( int c, const std::string& p ):
-- 
2.43.0


From 261ae9f220192790d78826f691c7ca12857ff504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:26 +0000
Subject: [PATCH 50/70] fix: a pool reports exceptions of methods with the same
 codes as serial execution

---
 libiqxmlrpc/executor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index bcd456c..57960f3 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -226,13 +226,17 @@ void Pool_executor::process_actual_execution()
   {
     schedule_response( Response( f.code(), f.what() ) );
   }
+  catch( const Exception& e )
+  {
+    schedule_response( Response( e.code(), e.what() ) );
+  }
   catch( const std::exception& e )
   {
-    schedule_response( Response( -1, e.what() ) );
+    schedule_response( Response( -32500 /*application error*/, e.what() ) );
   }
   catch( ... )
   {
-    schedule_response( Response( -1, "Unknown Error" ) );
+    schedule_response( Response( -32500 /*application error*/, "Unknown Error" ) );
   }
 }
 
-- 
2.43.0


From ddde00a5bc5f653cd7e27cc112448be2be5c52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:26 +0000
Subject: [PATCH 51/70] fix: keep-alive is recognised in any case of letters

---
 libiqxmlrpc/http.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 262de70..a116cf3 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -220,7 +220,7 @@ unsigned Header::content_length() const
 
 bool Header::conn_keep_alive() const
 {
-  return get_string(names::connection) == "keep-alive";
+  return boost::iequals(get_string(names::connection), "keep-alive");
 }
 
 bool Header::expect_continue() const
-- 
2.43.0


From c664ae9e157965b37f0cb439e8ecb9f0248732dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:42 +0000
Subject: [PATCH 52/70] fix: an error status without content length is reported
 as that status

---
 libiqxmlrpc/http.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index a116cf3..f81cefd 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -355,6 +355,10 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
   // the phrase may have several words
   resp_line.erase(resp_line.begin(), resp_line.begin() + 2);
   phrase_ = boost::trim_right_copy(boost::join(resp_line, " "));
+
+  // errors are often sent without content and its length
+  if (code_ != 200)
+    set_option_default(names::content_length, "0");
 }
 
 Response_header::Response_header( int c, const std::string& p ):
@@ -531,7 +535,13 @@ Packet* Packet_reader::read_request( const std::string& s )
 
 Packet* Packet_reader::read_response( const std::string& s, bool hdr_only )
 {
-  return read_packet<Response_header>(s, hdr_only);
+  try {
+    return read_packet<Response_header>(s, hdr_only);
+  }
+  catch (const Length_required&) {
+    // it is not the server who requires it
+    throw Malformed_packet("Missing mandatory header option 'content-length'");
+  }
 }
 
 } // namespace http
-- 
2.43.0


From 2494d81f9b3849c223a1956f8d5cdeb3472fa044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 53/70] fix: several threads can read one value

The encoded form of binary data and the text of a date were made by the
first call that asked for them, in a member of the constant object. Two
threads reading the same value wrote that member at the same time. Both
are now made when the value is built.
---
 libiqxmlrpc/value_type.cc | 29 +++++++++++++++++------------
 libiqxmlrpc/value_type.h  | 11 +++++++----
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 9d73967..7e28154 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -360,7 +360,10 @@ Binary_data* Binary_data::from_data( const char* s, size_t size )
 Binary_data::Binary_data( const std::string& s, bool raw )
 {
   if( raw )
+  {
     data = s;
+    encode();
+  }
   else
   {
     base64 = s;
@@ -377,20 +380,17 @@ const std::string& Binary_data::get_data() const
 
 const std::string& Binary_data::get_base64() const
 {
-  if( base64.empty() && !data.empty() )
-    encode();
-
   return base64;
 }
 
 
-inline void Binary_data::add_base64_char( int idx ) const
+inline void Binary_data::add_base64_char( int idx )
 {
   base64 += base64_alpha[idx];
 }
 
 
-void Binary_data::encode() const
+void Binary_data::encode()
 {
   const char* d = data.data();
   size_t dsz = data.length();
@@ -529,6 +529,7 @@ void Binary_data::apply_visitor(Value_type_visitor& v) const
 Date_time::Date_time( const struct tm* t )
 {
   tm_ = *t;
+  format();
 }
 
 
@@ -537,6 +538,7 @@ Date_time::Date_time( bool use_lt )
   using namespace boost::posix_time;
   ptime p = use_lt ? second_clock::local_time() : second_clock::universal_time();
   tm_ = to_tm(p);
+  format();
 }
 
 
@@ -566,6 +568,8 @@ Date_time::Date_time( const std::string& s )
       !(tm_.tm_sec >= 0 && tm_.tm_sec <= 61)
     )
     throw Malformed_iso8601();
+
+  format();
 }
 
 
@@ -587,15 +591,16 @@ void Date_time::apply_visitor(Value_type_visitor& v) const
 }
 
 
-const std::string& Date_time::to_string() const
+void Date_time::format()
 {
-  if( cache.empty() )
-  {
-    char s[18];
-    strftime( s, 18, "%Y%m%dT%H:%M:%S", &tm_ );
-    cache = std::string( s, 17 );
-  }
+  char s[18];
+  strftime( s, 18, "%Y%m%dT%H:%M:%S", &tm_ );
+  cache = std::string( s, 17 );
+}
 
+
+const std::string& Date_time::to_string() const
+{
   return cache;
 }
 
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index 9e2f5fb..5492bbf 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -270,7 +270,7 @@ private:
   static const char base64_alpha[64];
 
   std::string data;
-  mutable std::string base64;
+  std::string base64;
 
 public:
   //! Construct an object from encoded data.
@@ -294,8 +294,8 @@ private:
 
   Binary_data( const std::string&, bool raw );
 
-  void add_base64_char( int idx ) const;
-  void encode() const;
+  void add_base64_char( int idx );
+  void encode();
 
   char get_idx( char );
   void decode_four( const std::string& );
@@ -315,7 +315,7 @@ public:
 
 private:
   struct tm tm_;
-  mutable std::string cache;
+  std::string cache;
 
 public:
   Date_time( const struct tm* );
@@ -328,6 +328,9 @@ public:
   Value_type* clone() const;
   const std::string& type_name() const;
   void apply_visitor(Value_type_visitor&) const;
+
+private:
+  void format();
 };
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 1599fde7bbcc40126e1e0d25b76da76808ccffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:24 +0000
Subject: [PATCH 54/70] fix: the reply to another method than POST names the
 allowed one

The header was called "allowed:", with the colon in its name, so that the
line was malformed and no client could find the list it has to carry.
---
 libiqxmlrpc/http_errors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http_errors.h b/libiqxmlrpc/http_errors.h
index ca7261c..a57ddd6 100644
--- a/libiqxmlrpc/http_errors.h
+++ b/libiqxmlrpc/http_errors.h
@@ -32,7 +32,7 @@ public:
   Method_not_allowed():
     Error_response( "Method not allowed", 405 )
   {
-    header_->set_option( "allowed:", "POST" );
+    header_->set_option( "allow", "POST" );
   }
 };
 
-- 
2.43.0


From 4706bdc5ce66242134df281f55bfdb31d34ac6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:26:30 +0000
Subject: [PATCH 55/70] fix: set all fields of the broken-down time of a
 decoded date-time

The day of week, day of year and daylight saving fields were left
uninitialised, so mktime() on a received date-time could be off by an hour.
---
 libiqxmlrpc/value_type.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 7e28154..9d8b389 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -542,8 +542,10 @@ Date_time::Date_time( bool use_lt )
 }
 
 
-Date_time::Date_time( const std::string& s )
+Date_time::Date_time( const std::string& s ):
+  tm_()
 {
+  tm_.tm_isdst = -1; // the text does not tell
   if( s.length() != 17 || s[8] != 'T' )
     throw Malformed_iso8601();
 
-- 
2.43.0


From e55ee71081162325641bf4f9567831902edf5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:22 +0000
Subject: [PATCH 56/70] fix: a firewall that raises an exception does not end
 the server

The exception left the loop and the accepted socket stayed open. The client
that could not be checked is refused now.
---
 libiqxmlrpc/acceptor.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 4325125..b531328 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -74,10 +74,24 @@ void Acceptor::accept()
 
   Socket& new_sock = *accepted;
 
-  if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
+  bool granted = true;
+  std::string msg;
+
+  try {
+    granted = !firewall || firewall->grant( new_sock.get_peer_addr() );
+
+    if( !granted )
+      msg = firewall->message();
+  }
+  catch( ... )
   {
-    std::string msg = firewall->message();
+    // A client that could not be checked is refused, others are not affected.
+    new_sock.close();
+    return;
+  }
 
+  if( !granted )
+  {
     try {
       if (!msg.empty())
       {
-- 
2.43.0


From b6a8468c8b793da053343a29991d94ad77c286d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:55 +0000
Subject: [PATCH 57/70] fix: array and struct operations that run out of memory
 leak nothing and keep the old contents

---
 libiqxmlrpc/value_type.cc  | 34 ++++++++++++++++++++++++++++------
 libiqxmlrpc/value_type.inl |  8 ++++++--
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 9d8b389..7680ca5 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -11,6 +11,7 @@
 #include <boost/date_time/posix_time/posix_time.hpp>
 
 #include <algorithm>
+#include <memory>
 #include <string.h>
 
 namespace iqxmlrpc {
@@ -118,7 +119,9 @@ public:
 
   void operator ()( const Value& v )
   {
-    vv->push_back( new Value(v) );
+    std::auto_ptr<Value> p( new Value(v) );
+    vv->push_back( p.get() );
+    p.release();
   }
 };
 #endif
@@ -126,7 +129,14 @@ public:
 
 Array::Array( const Array& other )
 {
-  std::for_each( other.begin(), other.end(), Array_inserter(&values) );
+  try {
+    std::for_each( other.begin(), other.end(), Array_inserter(&values) );
+  }
+  catch( ... )
+  {
+    clear();
+    throw;
+  }
 }
 
 
@@ -184,7 +194,9 @@ void Array::clear()
 // value_type.h and value.h
 void Array::push_back( Value_ptr v )
 {
-  values.push_back(v.release());
+  std::auto_ptr<Value> p(v.release());
+  values.push_back(p.get());
+  p.release();
 }
 
 
@@ -192,7 +204,8 @@ void Array::push_back( Value_ptr v )
 // value_type.h and value.h
 void Array::push_back( const Value& v )
 {
-  values.push_back(new Value(v));
+  Value_ptr p(new Value(v));
+  push_back(p);
 }
 
 
@@ -208,7 +221,9 @@ public:
 
   void operator ()( const std::pair<std::string, Value*>& vp )
   {
-    vs->insert( std::make_pair(vp.first, new Value(*vp.second)) );
+    std::auto_ptr<Value> p( new Value(*vp.second) );
+    vs->insert( std::make_pair(vp.first, p.get()) );
+    p.release();
   }
 };
 #endif
@@ -216,7 +231,14 @@ public:
 
 Struct::Struct( const Struct& other )
 {
-  std::for_each( other.begin(), other.end(), Struct_inserter(&values) );
+  try {
+    std::for_each( other.begin(), other.end(), Struct_inserter(&values) );
+  }
+  catch( ... )
+  {
+    clear();
+    throw;
+  }
 }
 
 
diff --git a/libiqxmlrpc/value_type.inl b/libiqxmlrpc/value_type.inl
index bb25899..2338cc3 100644
--- a/libiqxmlrpc/value_type.inl
+++ b/libiqxmlrpc/value_type.inl
@@ -11,9 +11,13 @@ namespace iqxmlrpc {
 template <class In>
 void Array::assign( In first, In last )
 {
-  clear();
+  Array tmp;
   for( ; first != last; ++first )
-    values.push_back( new Value(*first) );
+  {
+    Value_ptr p( new Value(*first) );
+    tmp.push_back( p );
+  }
+  tmp.swap( *this );
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 988968e9115dbb64218fa5cacd2112761d646b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:43:28 +0000
Subject: [PATCH 58/70] fix: decoding a document releases everything when it
 runs out of memory

---
 libiqxmlrpc/parser2.cc      | 12 +++++++++---
 libiqxmlrpc/value_parser.cc |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index d6ddec3..e152914 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -16,13 +16,19 @@ namespace {
 inline std::string
 to_string(xmlChar* s)
 {
+  std::string retval;
+
   if (s) {
-    std::string retval(reinterpret_cast<const char*>(s));
+    try {
+      retval = reinterpret_cast<const char*>(s);
+    } catch (...) {
+      xmlFree(s);
+      throw;
+    }
     xmlFree(s);
-    return retval;
   }
 
-  return std::string();
+  return retval;
 }
 
 } // nameless namespace
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 83ba20f..1194d15 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -113,9 +113,11 @@ private:
   do_visit_element(const std::string& tagname)
   {
     if (state_.change(tagname) == VALUES) {
-      Value_type* tmp = sub_build<Value_type*, ValueBuilder>();
-      tmp = tmp ? tmp : new String("");
-      Value_ptr v(new Value(tmp));
+      std::auto_ptr<Value_type> tmp(sub_build<Value_type*, ValueBuilder>());
+      if (!tmp.get())
+        tmp.reset(new String(""));
+      Value_ptr v(new Value(tmp.get()));
+      tmp.release();
       proxy_->push_back(v);
     }
   }
-- 
2.43.0


From 186f60cea0d732918b5d759200171067d263e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:30 +0000
Subject: [PATCH 59/70] fix: a packet whose construction fails does not release
 its header twice

---
 libiqxmlrpc/http.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index f81cefd..10ae60c 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -375,9 +375,11 @@ std::string Response_header::current_date() const
   ptime p = second_clock::universal_time();
 
   std::ostringstream ss;
-  // locale is responsible for deleting facets: smartptr isn't required.
-  time_facet* tf = new time_facet("%a, %d %b %Y %H:%M:%S GMT");
-  ss.imbue(std::locale(std::locale::classic(), tf));
+  // locale is responsible for deleting facets once it is constructed.
+  std::auto_ptr<time_facet> tf(new time_facet("%a, %d %b %Y %H:%M:%S GMT"));
+  std::locale loc(std::locale::classic(), tf.get());
+  tf.release();
+  ss.imbue(loc);
   ss << p;
 
   return ss.str();
@@ -483,8 +485,10 @@ Packet* Packet_reader::read_packet( const std::string& s, bool hdr_only )
   {
     if ( hdr_only )
     {
+      // The packet owns the header even if its construction fails.
+      std::auto_ptr<Header> h( header );
       constructed = true;
-      return new Packet( header, std::string() );
+      return new Packet( h.release(), std::string() );
     }
 
     bool ready = (header->content_length() == 0 && s.empty()) ||
@@ -494,9 +498,10 @@ Packet* Packet_reader::read_packet( const std::string& s, bool hdr_only )
     {
       rest.assign( content_cache, header->content_length(), std::string::npos );
       content_cache.erase( header->content_length(), std::string::npos );
-      Packet* packet = new Packet( header, content_cache );
+      // The packet owns the header even if its construction fails.
+      std::auto_ptr<Header> h( header );
       constructed = true;
-      return packet;
+      return new Packet( h.release(), content_cache );
     }
   }
 
-- 
2.43.0


From d2bd26bacc0f45c49c3632ef42575c09117f3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:30 +0000
Subject: [PATCH 60/70] fix: registration of an event handler that fails leaves
 nothing behind

---
 libiqxmlrpc/reactor_impl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 169bd6d..91a7b08 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -118,11 +118,13 @@ void Reactor<Lock>::register_handler( Event_handler* eh, Event_mask mask )
 
   if( handlers.find(fd) == handlers.end() )
   {
+    // both lists get the handler or none of them does
+    HandlerStateList hs(1, HandlerState(fd, mask));
+    handlers[fd] = eh;
+    handlers_states.splice(end(), hs);
+
     if (eh->is_stopper())
       num_stoppers++;
-
-    handlers_states.push_back( HandlerState(fd, mask) );
-    handlers[fd] = eh;
   }
   else
   {
-- 
2.43.0


From 9d00d108a604e3d9ff826d4dac5b245787b9a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:53:23 +0000
Subject: [PATCH 61/70] fix: messages are not sent cut short when writing them
 runs out of memory

---
 libiqxmlrpc/http.cc        | 3 +++
 libiqxmlrpc/http_client.cc | 1 +
 2 files changed, 4 insertions(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 10ae60c..9c18bdf 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -259,6 +259,7 @@ Request_header::Request_header(
   uri_(req_uri)
 {
   std::ostringstream host_opt;
+  host_opt.exceptions(std::ios::badbit);
   host_opt << vhost << ":" << port;
   set_option(names::host, host_opt.str());
   set_option(names::user_agent, PACKAGE " " VERSION);
@@ -375,6 +376,7 @@ std::string Response_header::current_date() const
   ptime p = second_clock::universal_time();
 
   std::ostringstream ss;
+  ss.exceptions(std::ios::badbit);
   // locale is responsible for deleting facets once it is constructed.
   std::auto_ptr<time_facet> tf(new time_facet("%a, %d %b %Y %H:%M:%S GMT"));
   std::locale loc(std::locale::classic(), tf.get());
@@ -388,6 +390,7 @@ std::string Response_header::current_date() const
 std::string Response_header::dump_head() const
 {
   std::ostringstream ss;
+  ss.exceptions(std::ios::badbit);
   ss << "HTTP/1.1 " << code() <<  " " << phrase() << names::crlf;
   return ss.str();
 }
diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index bddcfd3..9a1dc81 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -71,6 +71,7 @@ void Http_client_connection::handle_input( bool& )
 std::string Http_proxy_client_connection::decorate_uri() const
 {
   std::ostringstream ss;
+  ss.exceptions(std::ios::badbit);
   ss << "http://" << opts().vhost() << ':' << opts().addr().get_port();
 
   if (!opts().uri().empty() && opts().uri()[0] != '/')
-- 
2.43.0


From 02a52f3e4b3e0100465d0d436b615664e330c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:53:42 +0000
Subject: [PATCH 62/70] fix: a response that cannot be built for lack of memory
 does not release its executor twice

---
 libiqxmlrpc/server.cc      | 22 ++++++++++++++--------
 libiqxmlrpc/server_conn.cc | 17 +++++++++++++----
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index eb82a07..fa39bcf 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -190,7 +190,8 @@ void Server::schedule_execute( http::Packet* pkt, Server_connection* conn )
   using boost::scoped_ptr;
   using boost::optional;
 
-  Executor* executor = 0;
+  // Destroyed unless its response is scheduled.
+  std::auto_ptr<Executor> executor;
 
   try {
     scoped_ptr<http::Packet> packet(pkt);
@@ -203,21 +204,22 @@ void Server::schedule_execute( http::Packet* pkt, Server_connection* conn )
       Server_feedback(this)
     };
 
-    Method* meth = impl->disp_manager.create_method( mdata );
+    std::auto_ptr<Method> meth( impl->disp_manager.create_method( mdata ) );
 
     if (authname)
       meth->authname(authname.get());
 
     pkt->header()->get_xheaders(meth->xheaders());
 
-    executor = impl->exec_factory->create( meth, this, conn );
+    executor.reset( impl->exec_factory->create( meth.get(), this, conn ) );
+    meth.release();
     executor->set_interceptors(impl->interceptors.get());
     executor->execute( req->get_params() );
+    executor.release();
   }
   catch( const iqxmlrpc::http::Error_response& e )
   {
     log_err_msg( e.what() );
-    std::auto_ptr<Executor> executor_to_delete(executor);
     http::Packet *pkt = new http::Packet(e);
     conn->schedule_response( pkt );
   }
@@ -225,29 +227,33 @@ void Server::schedule_execute( http::Packet* pkt, Server_connection* conn )
   {
     log_err_msg( std::string("Server: ") + e.what() );
     Response err_r( e.code(), e.what() );
-    schedule_response( err_r, conn, executor );
+    schedule_response( err_r, conn, executor.get() );
+    executor.release();
   }
   catch( const std::exception& e )
   {
     log_err_msg( std::string("Server: ") + e.what() );
     Response err_r( -32500 /*application error*/, e.what() );
-    schedule_response( err_r, conn, executor );
+    schedule_response( err_r, conn, executor.get() );
+    executor.release();
   }
   catch( ... )
   {
     log_err_msg( "Server: Unknown exception" );
     Response err_r( -32500  /*application error*/, "Unknown Error" );
-    schedule_response( err_r, conn, executor );
+    schedule_response( err_r, conn, executor.get() );
+    executor.release();
   }
 }
 
 void Server::schedule_response(
   const Response& resp, Server_connection* conn, Executor* exec )
 {
-  std::auto_ptr<Executor> executor_to_delete(exec);
   std::string resp_str = dump_response(resp);
   http::Packet *packet = new http::Packet(new http::Response_header(), resp_str);
   conn->schedule_response( packet );
+  // If there is no response, the caller has to send another one.
+  delete exec;
 }
 
 void Server::set_firewall( iqnet::Firewall_base* _firewall )
diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index c33b9cf..ec18776 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -28,9 +28,9 @@ http::Packet* Server_connection::read_request( const std::string& s )
   {
     preader.set_verification_level( server->get_verification_level() );
     preader.set_max_size( server->get_max_request_sz() );
-    http::Packet* r = preader.read_request(s);
+    std::auto_ptr<http::Packet> r( preader.read_request(s) );
 
-    if( r ) {
+    if( r.get() ) {
       keep_alive = r->header()->conn_keep_alive();
     } else if( preader.expect_continue() ) {
       response += "HTTP/1.1 100\r\n\r\n";
@@ -39,7 +39,7 @@ http::Packet* Server_connection::read_request( const std::string& s )
       preader.set_continue_sent();
     }
 
-    return r;
+    return r.release();
   }
   catch( const http::Malformed_packet& )
   {
@@ -53,8 +53,17 @@ void Server_connection::schedule_response( http::Packet* pkt )
   std::auto_ptr<http::Packet> p(pkt);
   p->set_keep_alive( keep_alive );
   // An interim reply may be not sent yet.
+  const size_t sz = response.size();
   response += p->dump();
-  do_schedule_response();
+
+  try {
+    do_schedule_response();
+  }
+  catch( ... )
+  {
+    response.resize( sz );
+    throw;
+  }
 }
 
 // vim:ts=2:sw=2:et
-- 
2.43.0


From c946ad959d5810d99669b280c5080352c20b7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:09 +0000
Subject: [PATCH 63/70] fix: a pool thread survives a fault that could not be
 sent for lack of memory

---
 libiqxmlrpc/executor.cc | 13 +++++++++++++
 libiqxmlrpc/executor.h  |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 57960f3..dcb84d9 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -216,6 +216,19 @@ void Pool_executor::execute( const Param_list& params_ )
 
 
 void Pool_executor::process_actual_execution()
+{
+  try {
+    execute_method();
+  }
+  catch( const std::exception& e )
+  {
+    // The response could not be built: nobody else handles it in this thread.
+    schedule_response( Response( -32500 /*application error*/, e.what() ) );
+  }
+}
+
+
+void Pool_executor::execute_method()
 {
   try {
     std::auto_ptr<Value> result(new Value(0));
diff --git a/libiqxmlrpc/executor.h b/libiqxmlrpc/executor.h
index 2b7a79f..806ccea 100644
--- a/libiqxmlrpc/executor.h
+++ b/libiqxmlrpc/executor.h
@@ -122,6 +122,9 @@ public:
 
   void execute( const Param_list& );
   void process_actual_execution();
+
+private:
+  void execute_method();
 };
 
 //! Factory for Pool_executor objects. It is also serves as a pool of threads.
-- 
2.43.0


From 5a39505bb1fd7948cd6f9e97981b67c367528b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:08 +0000
Subject: [PATCH 64/70] fix: a connection is finished even if its error could
 not be logged

---
 libiqxmlrpc/reactor_impl.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 91a7b08..4fdf796 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -202,13 +202,26 @@ void Reactor<Lock>::invoke_servers_handler(
   }
   catch( const std::exception& e )
   {
-    handler->log_exception( e );
     terminate = true;
+
+    // the handler is finished even if that could not be logged
+    try {
+      handler->log_exception( e );
+    }
+    catch( ... )
+    {
+    }
   }
   catch( ... )
   {
-    handler->log_unknown_exception();
     terminate = true;
+
+    try {
+      handler->log_unknown_exception();
+    }
+    catch( ... )
+    {
+    }
   }
 }
 
-- 
2.43.0


From aba996137617564bd98fbaa9c01bfb6511e9c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:08 +0000
Subject: [PATCH 65/70] fix: a failing log stream does not affect requests

---
 libiqxmlrpc/server.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index fa39bcf..b0960b5 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -149,8 +149,14 @@ void Server::log_err_msg( const std::string& msg )
   // methods executed by a thread pool write here too
   boost::mutex::scoped_lock lk( impl->log_lock );
 
-  if( impl->log )
-    *impl->log << msg << std::endl;
+  try {
+    if( impl->log )
+      *impl->log << msg << std::endl;
+  }
+  catch( ... )
+  {
+    // Requests are served even if errors could not be logged.
+  }
 }
 
 namespace {
-- 
2.43.0


From a57ff8e9fd425e7e23037c3847ac4cba14f3ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:55 +0000
Subject: [PATCH 66/70] fix: numbers in documents do not depend on the locale
 of the application

---
 libiqxmlrpc/num_conv.h        | 51 +++++++++++++++++++++++++++++++++++
 libiqxmlrpc/value_parser.cc   | 12 ++++-----
 libiqxmlrpc/value_type_xml.cc |  9 +++----
 3 files changed, 61 insertions(+), 11 deletions(-)
 create mode 100644 libiqxmlrpc/num_conv.h

diff --git a/libiqxmlrpc/num_conv.h b/libiqxmlrpc/num_conv.h
new file mode 100644
index 0000000..6849e13
--- /dev/null
+++ b/libiqxmlrpc/num_conv.h
@@ -0,0 +1,51 @@
+//  Libiqxmlrpc - an object-oriented XML-RPC solution.
+//  Copyright (C) 2014 Anton Dedov
+
+#ifndef _iqxmlrpc_num_conv_h_
+#define _iqxmlrpc_num_conv_h_
+
+#include <boost/lexical_cast.hpp>
+
+#include <limits>
+#include <locale>
+#include <sstream>
+#include <string>
+
+namespace iqxmlrpc {
+namespace util {
+
+//! Textual form of a number, the same under every locale of an application.
+template <class T>
+std::string num_to_string(T val)
+{
+  std::ostringstream ss;
+  ss.imbue(std::locale::classic());
+  ss.exceptions(std::ios::badbit);
+  ss.precision(std::numeric_limits<double>::digits10 + 2);
+  ss << val;
+  return ss.str();
+}
+
+//! Number from its textual form, the same under every locale of an application.
+template <class T>
+T num_from_string(const std::string& s)
+{
+  // infinity and so on
+  if (s.find_first_of("0123456789") == std::string::npos)
+    return boost::lexical_cast<T>(s);
+
+  std::istringstream ss(s);
+  ss.imbue(std::locale::classic());
+  ss.unsetf(std::ios::skipws);
+
+  T val;
+  if (!(ss >> val) || ss.peek() != std::istringstream::traits_type::eof())
+    throw boost::bad_lexical_cast();
+
+  return val;
+}
+
+} // namespace util
+} // namespace iqxmlrpc
+
+#endif
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 1194d15..fbba50d 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -2,8 +2,8 @@
 //  Copyright (C) 2011 Anton Dedov
 
 #include <stdexcept>
-#include <boost/lexical_cast.hpp>
 #include "except.h"
+#include "num_conv.h"
 #include "value_parser.h"
 
 namespace iqxmlrpc {
@@ -238,7 +238,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 void
 ValueBuilder::do_visit_text(const std::string& text)
 {
-  using boost::lexical_cast;
+  using util::num_from_string;
 
   // white space around tags means nothing
   if (state_.get_state() != STRING &&
@@ -253,19 +253,19 @@ ValueBuilder::do_visit_text(const std::string& text)
     break;
 
   case INT:
-    retval.reset(new Int(lexical_cast<int>(text)));
+    retval.reset(new Int(num_from_string<int>(text)));
     break;
 
   case INT64:
-    retval.reset(new Int64(lexical_cast<int64_t>(text)));
+    retval.reset(new Int64(num_from_string<int64_t>(text)));
     break;
 
   case BOOL:
-    retval.reset(new Bool(lexical_cast<int>(text) != 0));
+    retval.reset(new Bool(num_from_string<int>(text) != 0));
     break;
 
   case DOUBLE:
-    retval.reset(new Double(lexical_cast<double>(text)));
+    retval.reset(new Double(num_from_string<double>(text)));
     break;
 
   case BINARY:
diff --git a/libiqxmlrpc/value_type_xml.cc b/libiqxmlrpc/value_type_xml.cc
index 0d12b47..8d0ec26 100644
--- a/libiqxmlrpc/value_type_xml.cc
+++ b/libiqxmlrpc/value_type_xml.cc
@@ -1,8 +1,7 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
-#include <boost/lexical_cast.hpp>
-
+#include "num_conv.h"
 #include "value.h"
 #include "value_type_xml.h"
 #include "xml_builder.h"
@@ -31,17 +30,17 @@ void Value_type_to_xml::do_visit_nil()
 
 void Value_type_to_xml::do_visit_int(int val)
 {
-  add_textnode("i4", boost::lexical_cast<std::string>(val));
+  add_textnode("i4", util::num_to_string(val));
 }
 
 void Value_type_to_xml::do_visit_int64(int64_t val)
 {
-  add_textnode("i8", boost::lexical_cast<std::string>(val));
+  add_textnode("i8", util::num_to_string(val));
 }
 
 void Value_type_to_xml::do_visit_double(double val)
 {
-  add_textnode("double", boost::lexical_cast<std::string>(val));
+  add_textnode("double", util::num_to_string(val));
 }
 
 void Value_type_to_xml::do_visit_bool(bool val)
-- 
2.43.0


From 5a2bf7625baba4db63b04137a6ce04e373c80e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:39 +0000
Subject: [PATCH 67/70] fix: HTTP headers do not depend on the locale of the
 application

---
 libiqxmlrpc/http.cc         | 45 ++++++++++++++++++++++++-------------
 libiqxmlrpc/http_client.cc  |  1 +
 libiqxmlrpc/https_client.cc |  5 ++---
 libiqxmlrpc/xheaders.cc     |  6 ++---
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 9c18bdf..ac9ce77 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -5,6 +5,7 @@
 
 #include "http_errors.h"
 #include "method.h"
+#include "num_conv.h"
 #include "version.h"
 
 #include <boost/algorithm/string.hpp>
@@ -42,10 +43,10 @@ void unsigned_number(const std::string& val)
   const char errmsg[] = "bad format of numeric option";
 
   try {
-    if (!boost::all(val, boost::is_digit()))
+    if (!boost::all(val, boost::is_digit(std::locale::classic())))
       throw Malformed_packet(errmsg);
 
-    boost::lexical_cast<unsigned>(val);
+    util::num_from_string<unsigned>(val);
   } catch (const boost::bad_lexical_cast&) {
     throw Malformed_packet(errmsg);
   }
@@ -54,7 +55,7 @@ void unsigned_number(const std::string& val)
 void content_type(const std::string& val)
 {
   std::string cont_type(val);
-  boost::to_lower(cont_type);
+  boost::to_lower(cont_type, std::locale::classic());
 
   if (!boost::find_first(cont_type, "text/xml"))
     throw Unsupported_content_type(cont_type);
@@ -63,7 +64,7 @@ void content_type(const std::string& val)
 void expect_continue(const std::string& val)
 {
   std::string exp(val);
-  boost::to_lower(exp);
+  boost::to_lower(exp, std::locale::classic());
 
   if (!boost::starts_with(exp, "100-continue"))
     throw Expectation_failed();
@@ -114,13 +115,25 @@ void Header::parse(const std::string& s)
     std::copy(i->begin(), j.begin(), std::back_inserter(opt_name));
     std::copy(j.end(), i->end(), std::back_inserter(opt_value));
 
-    boost::trim(opt_name);
-    boost::trim(opt_value);
-    boost::to_lower(opt_name);
+    boost::trim(opt_name, std::locale::classic());
+    boost::trim(opt_value, std::locale::classic());
+    boost::to_lower(opt_name, std::locale::classic());
     set_option_checked(opt_name, opt_value);
   }
 }
 
+template <class T>
+inline T option_value(const std::string& s)
+{
+  return util::num_from_string<T>(s);
+}
+
+template <>
+inline std::string option_value(const std::string& s)
+{
+  return s;
+}
+
 template <class T>
 T Header::get_option(const std::string& name) const
 {
@@ -131,7 +144,7 @@ T Header::get_option(const std::string& name) const
   }
 
   try {
-    return boost::lexical_cast<T>(i->second);
+    return option_value<T>(i->second);
   } catch (boost::bad_lexical_cast&) {
     throw Malformed_packet("Header option '" + name + "' has wrong format.");
   }
@@ -169,7 +182,7 @@ void Header::set_option(const std::string& name, const std::string& value)
 
 void Header::set_option(const std::string& name, size_t value)
 {
-  set_option(name, boost::lexical_cast<std::string>(value));
+  set_option(name, util::num_to_string(value));
 }
 
 bool Header::option_exists(const std::string& name) const
@@ -220,7 +233,7 @@ unsigned Header::content_length() const
 
 bool Header::conn_keep_alive() const
 {
-  return boost::iequals(get_string(names::connection), "keep-alive");
+  return boost::iequals(get_string(names::connection), "keep-alive", std::locale::classic());
 }
 
 bool Header::expect_continue() const
@@ -239,7 +252,7 @@ Request_header::Request_header(Verification_level lev, const std::string& to_par
   // parse method
   typedef std::deque<std::string> Token;
   Token method_line;
-  boost::split(method_line, get_head_line(), boost::is_space(), boost::token_compress_on);
+  boost::split(method_line, get_head_line(), boost::is_space(std::locale::classic()), boost::token_compress_on);
 
   if (method_line.empty())
     throw Bad_request();
@@ -259,6 +272,7 @@ Request_header::Request_header(
   uri_(req_uri)
 {
   std::ostringstream host_opt;
+  host_opt.imbue(std::locale::classic());
   host_opt.exceptions(std::ios::badbit);
   host_opt << vhost << ":" << port;
   set_option(names::host, host_opt.str());
@@ -312,7 +326,7 @@ void Request_header::get_authinfo(std::string& user, std::string& pw) const
   if (v.size() != 2)
     throw Unauthorized();
 
-  boost::to_lower(v[0]);
+  boost::to_lower(v[0], std::locale::classic());
   if (v[0] != "basic")
     throw Unauthorized();
 
@@ -341,21 +355,21 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
 
   typedef std::deque<std::string> Token;
   Token resp_line;
-  boost::split(resp_line, get_head_line(), boost::is_space(), boost::token_compress_on);
+  boost::split(resp_line, get_head_line(), boost::is_space(std::locale::classic()), boost::token_compress_on);
 
   if (resp_line.size() < 2) {
     throw Malformed_packet("Bad response");
   }
 
   try {
-    code_ = boost::lexical_cast<int>(resp_line[1]);
+    code_ = util::num_from_string<int>(resp_line[1]);
   } catch (const boost::bad_lexical_cast&) {
     code_ = 0;
   }
 
   // the phrase may have several words
   resp_line.erase(resp_line.begin(), resp_line.begin() + 2);
-  phrase_ = boost::trim_right_copy(boost::join(resp_line, " "));
+  phrase_ = boost::trim_right_copy(boost::join(resp_line, " "), std::locale::classic());
 
   // errors are often sent without content and its length
   if (code_ != 200)
@@ -390,6 +404,7 @@ std::string Response_header::current_date() const
 std::string Response_header::dump_head() const
 {
   std::ostringstream ss;
+  ss.imbue(std::locale::classic());
   ss.exceptions(std::ios::badbit);
   ss << "HTTP/1.1 " << code() <<  " " << phrase() << names::crlf;
   return ss.str();
diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index 9a1dc81..592a0c0 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -71,6 +71,7 @@ void Http_client_connection::handle_input( bool& )
 std::string Http_proxy_client_connection::decorate_uri() const
 {
   std::ostringstream ss;
+  ss.imbue(std::locale::classic());
   ss.exceptions(std::ios::badbit);
   ss << "http://" << opts().vhost() << ':' << opts().addr().get_port();
 
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 3acdf02..a50e854 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -4,10 +4,9 @@
 #include "https_client.h"
 
 #include "client_opts.h"
+#include "num_conv.h"
 #include "reactor_impl.h"
 
-#include <boost/lexical_cast.hpp>
-
 using namespace iqnet;
 
 namespace iqxmlrpc {
@@ -27,7 +26,7 @@ private:
     return
       "CONNECT "
       + addr_.get_host_name() + ":"
-      + boost::lexical_cast<std::string>(addr_.get_port())
+      + util::num_to_string(addr_.get_port())
       + " HTTP/1.0\r\n";
   }
 
diff --git a/libiqxmlrpc/xheaders.cc b/libiqxmlrpc/xheaders.cc
index c26a1d9..9b21679 100644
--- a/libiqxmlrpc/xheaders.cc
+++ b/libiqxmlrpc/xheaders.cc
@@ -9,7 +9,7 @@ XHeaders& XHeaders::operator=(const std::map<std::string, std::string>& v) {
   for (XHeaders::const_iterator it = v.begin(); it != v.end(); ++it) {
     if (validate(it->first)) {
       std::string key(it->first);
-      boost::to_lower(key);
+      boost::to_lower(key, std::locale::classic());
       xheaders_[key] = it->second;
     }
   }
@@ -23,7 +23,7 @@ std::string& XHeaders::operator[] (const std::string& v) {
     throw Error_xheader("The header doesn't starts with `X-`");
   }
   std::string key(v);
-  boost::to_lower(key);
+  boost::to_lower(key, std::locale::classic());
   return xheaders_[key];
 }
 
@@ -33,7 +33,7 @@ size_t XHeaders::size() const {
 
 XHeaders::const_iterator XHeaders::find (const std::string& k) const {
   std::string key(k);
-  boost::to_lower(key);
+  boost::to_lower(key, std::locale::classic());
   return xheaders_.find(key);
 }
 
-- 
2.43.0


From 7b1d1d5a0120219f3122b6c582497cfdaa960f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:22 +0000
Subject: [PATCH 68/70] fix: a reply that does not begin like an HTTP reply is
 refused

---
 libiqxmlrpc/http.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index ac9ce77..dadfcbe 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -357,14 +357,14 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
   Token resp_line;
   boost::split(resp_line, get_head_line(), boost::is_space(std::locale::classic()), boost::token_compress_on);
 
-  if (resp_line.size() < 2) {
+  if (resp_line.size() < 2 || resp_line[0].compare(0, 5, "HTTP/") != 0) {
     throw Malformed_packet("Bad response");
   }
 
   try {
     code_ = util::num_from_string<int>(resp_line[1]);
   } catch (const boost::bad_lexical_cast&) {
-    code_ = 0;
+    throw Malformed_packet("Bad response");
   }
 
   // the phrase may have several words
-- 
2.43.0


From 479d51e44b32c8608f82bad987d314dc099cd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:45:35 +0000
Subject: [PATCH 69/70] fix: a long timeout of a client does not wrap around

Timeouts are handed to the event loop in milliseconds. A timeout of 4294968
seconds wrapped to 704 ms, so that calls failed early.
---
 libiqxmlrpc/client_opts.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client_opts.h b/libiqxmlrpc/client_opts.h
index 6380dda..bc11d1b 100644
--- a/libiqxmlrpc/client_opts.h
+++ b/libiqxmlrpc/client_opts.h
@@ -4,6 +4,8 @@
 #ifndef _iqxmlrpc_client_opts_h_
 #define _iqxmlrpc_client_opts_h_
 
+#include <limits.h>
+#include <algorithm>
 #include <string>
 #include "inet_addr.h"
 #include "xheaders.h"
@@ -40,7 +42,8 @@ public:
 
   void set_timeout( int seconds )
   {
-    if( (timeout_ = seconds) > 0 )
+    // it is going to be expressed in milliseconds
+    if( (timeout_ = std::min(seconds, INT_MAX / 1000)) > 0 )
       non_blocking_flag_ = true;
   }
 
-- 
2.43.0


From 90f71eb4909ee13e7451558d5a0ddcbdf37ee5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:45:35 +0000
Subject: [PATCH 70/70] fix: the interim reply has a complete status line

The space after the status code is not optional.
---
 libiqxmlrpc/server_conn.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index ec18776..3444b0f 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -33,7 +33,7 @@ http::Packet* Server_connection::read_request( const std::string& s )
     if( r.get() ) {
       keep_alive = r->header()->conn_keep_alive();
     } else if( preader.expect_continue() ) {
-      response += "HTTP/1.1 100\r\n\r\n";
+      response += "HTTP/1.1 100 Continue\r\n\r\n";
       keep_alive = true;
       do_schedule_response();
       preader.set_continue_sent();
-- 
2.43.0

