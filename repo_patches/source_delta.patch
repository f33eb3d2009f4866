From b2e9be81896678d71c7acdb3bd53237a847c3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 01/46] Add guarded verification hook for the initial size of
 Buffer

---
 src/log_surgeon/Buffer.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/Buffer.hpp b/src/log_surgeon/Buffer.hpp
index 2a35195..169bee4 100644
--- a/src/log_surgeon/Buffer.hpp
+++ b/src/log_surgeon/Buffer.hpp
@@ -24,6 +24,15 @@ namespace log_surgeon {
 template <typename Item>
 class Buffer {
 public:
+#ifdef LOG_SURGEON_VERIF_HOOKS
+    // Verification hook: lets a harness shrink the part of the static storage that is used, so that
+    // wrapping and growing the buffer can be reached with small inputs. Must be at most
+    // `cStaticByteBuffSize`.
+    static inline uint32_t cInitialSize{cStaticByteBuffSize};
+#else
+    static constexpr uint32_t cInitialSize{cStaticByteBuffSize};
+#endif
+
     auto set_curr_value(Item const& value) -> void { m_active_storage[m_pos] = value; }
 
     [[nodiscard]] auto get_curr_value() const -> Item const& { return m_active_storage[m_pos]; }
@@ -50,7 +59,7 @@ public:
         m_active_size *= 2;
     }
 
-    [[nodiscard]] auto static_size() const -> uint32_t { return cStaticByteBuffSize; }
+    [[nodiscard]] auto static_size() const -> uint32_t { return cInitialSize; }
 
     [[nodiscard]] auto size() const -> uint32_t { return m_active_size; }
 
@@ -58,7 +67,7 @@ public:
         m_pos = 0;
         m_dynamic_storages.clear();
         m_active_storage = m_static_storage;
-        m_active_size = cStaticByteBuffSize;
+        m_active_size = cInitialSize;
     }
 
     auto set_active_buffer(Item* storage, uint32_t size, uint32_t pos) -> void {
@@ -86,7 +95,7 @@ public:
 
 private:
     uint32_t m_pos{0};
-    uint32_t m_active_size{cStaticByteBuffSize};
+    uint32_t m_active_size{cInitialSize};
     std::vector<std::vector<Item>> m_dynamic_storages;
     Item m_static_storage[cStaticByteBuffSize];
     Item* m_active_storage{m_static_storage};
-- 
2.43.0


From 9191ed8c88afe10fee60d708010be5b576e77d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 02/46] fix: let the empty regex match the empty string

`R*` and `R{0,n}` are built as `R+ | <empty>`, but the empty alternative added
nothing to the NFA, so neither ever matched zero repetitions.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..32a3fc9 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,11 +177,9 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override {
+        // An empty node matches the empty string.
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From 148711015b49d8ff7159e0c6d6eefaddde03d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 03/46] fix: keep the loop of one regex alternative out of the
 others

All the alternatives of an `|` ended in the same NFA state, and a trailing
repetition loops on that state, so e.g. `(a+)|(b)` also matched "ba".
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 35 ++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 32a3fc9..706cbbb 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -77,6 +77,11 @@ public:
      */
     virtual auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void = 0;
 
+    /**
+     * @return Whether `add_to_nfa` may add transitions leaving the end state it's given.
+     */
+    [[nodiscard]] virtual auto loops_on_end_state() const -> bool { return false; }
+
     /**
      * Serializes the AST with this node as the root.
      * @return A string representing the serialized AST.
@@ -121,6 +126,24 @@ public:
         }
     }
 
+    /**
+     * Adds this node as one of several alternatives ending in the same state. An alternative that
+     * loops on its end state is given an end state of its own, since the other alternatives must
+     * not be able to continue with its loop.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_alternative_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const
+            -> void {
+        if (m_negative_tags.empty() && loops_on_end_state()) {
+            auto* alternative_end_state = nfa->new_state();
+            add_to_nfa(nfa, alternative_end_state);
+            alternative_end_state->add_epsilon_transition(end_state);
+        } else {
+            add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
+
 protected:
     RegexAST(RegexAST const& rhs) = default;
     auto operator=(RegexAST const& rhs) -> RegexAST& = default;
@@ -537,6 +560,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto loops_on_end_state() const -> bool override {
+        return m_right->loops_on_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -601,6 +628,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto loops_on_end_state() const -> bool override {
+        return is_infinite() || m_operand->loops_on_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -781,8 +812,8 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    m_left->add_alternative_to_nfa(nfa, end_state);
+    m_right->add_alternative_to_nfa(nfa, end_state);
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From 062d776249d71b3c3f64e639f77fcce920493f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 04/46] fix: don't turn the repetitions {0} and {0,0} into
 unbounded ones

A maximum of 0 means "unbounded" to RegexASTMultiplication, so `a{0}` matched
any number of repetitions. Also reject a repetition whose minimum exceeds its
maximum instead of silently treating it as its minimum.
---
 src/log_surgeon/SchemaParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..0b5aab8 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -224,6 +224,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r3_size; i++) {
         reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
     }
+    if (0 == reps) {
+        // RegexASTMultiplication represents an unbounded repetition with a maximum of 0
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -245,6 +249,15 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r5_size; i++) {
         max += r5_ptr->get_digit(i) * (uint32_t)pow(10, r5_size - i - 1);
     }
+    if (max < min) {
+        throw std::runtime_error(
+                strfmt("Repetition {%u,%u} has a minimum greater than its maximum.", min, max)
+        );
+    }
+    if (0 == max) {
+        // RegexASTMultiplication represents an unbounded repetition with a maximum of 0
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
     if (0 == min) {
-- 
2.43.0


From 06241a375117b4219b0ec22ff5d2757f974973f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 05/46] fix: don't lose the first token when copying an event
 without a timestamp

The tokens of such an event start at position 1 of the output buffer, but the
copy stored them from position 0, so the copy's accessors skipped the first.
---
 src/log_surgeon/LogEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..fd96941 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -84,6 +84,8 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
     }
     m_buffer.resize(buffer_size);
     uint32_t curr_pos = 0;
+    // As in the source, the first position is reserved for the timestamp even if there is none
+    m_log_output_buffer->set_pos(start);
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
         uint32_t start_pos = curr_pos;
@@ -102,7 +104,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From d83b7c3bc50cf07e4a810df97120b12f3c51a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 06/46] fix: forget the pending start of the next event when
 resetting LogParser

A parser reset after an event that ended at the next event's timestamp started
the new input with the old input's token, pointing into a reused buffer.
---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..7a19c37 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -156,6 +156,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 }
 
 auto LogParser::reset() -> void {
+    m_has_start_of_log = false;
     m_input_buffer.reset();
     m_lexer.reset();
     m_lexer.prepend_start_of_file_char(m_input_buffer);
-- 
2.43.0


From 4a57a165aa723c294d07c16f7b038208adba23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 07/46] fix: start a newly constructed LogParser as if it had
 been reset

Constructing a parser is documented as equivalent to resetting one, but a new
parser did not treat the start of its input as the start of a file, so e.g. a
BufferParser that was never reset missed the first timestamp.
---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 7a19c37..13ccfad 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,7 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From f045c72c5bfa00d5b8b64e424743f4ca8aa11913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 08/46] fix: report where an incomplete event without a
 timestamp starts

When BufferParser ran out of input inside such an event, it set the offset from
position 0 of the output buffer, which holds a stale token in that case.
---
 src/log_surgeon/BufferParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..43670ca 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -32,10 +32,11 @@ auto BufferParser::parse_next_event(
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
+        auto const& output_buffer = m_log_parser.get_log_event_view().m_log_output_buffer;
+        if (0 != output_buffer->pos()) {
+            // The first position is reserved for the timestamp even if there is none
+            uint32_t const first_token_pos = output_buffer->has_timestamp() ? 0 : 1;
+            offset = output_buffer->get_token(first_token_pos).m_start_pos;
         }
         reset();
         return error_code;
-- 
2.43.0


From 1b3bb35d35793d77fa42c6f180267b7e9d9ce9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 09/46] fix: honour a non-zero offset in the first parse after
 a BufferParser reset

The lexer kept the start of the buffer as the start of its first token, so the
bytes before the offset became part of the first event.
---
 src/log_surgeon/Lexer.tpp     | 1 +
 src/log_surgeon/LogParser.cpp | 1 +
 src/log_surgeon/LogParser.hpp | 6 ++++++
 3 files changed, 8 insertions(+)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..977a4c4 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -335,6 +335,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_last_match_pos = input_buffer.storage().pos();
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 13ccfad..db124dc 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -161,6 +161,7 @@ auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
     m_lexer.prepend_start_of_file_char(m_input_buffer);
+    m_at_start_of_input = true;
 }
 
 auto LogParser::parse_and_generate_metadata(LogParser::ParsingAction& parsing_action) -> ErrorCode {
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..663473f 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -86,6 +86,11 @@ public:
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+        if (m_at_start_of_input) {
+            // The input doesn't have to start at the beginning of the buffer
+            m_lexer.prepend_start_of_file_char(m_input_buffer);
+            m_at_start_of_input = false;
+        }
     }
 
     /**
@@ -162,6 +167,7 @@ private:
 
     // TODO: move ownership of the buffer to the lexer
     ParserInputBuffer m_input_buffer;
+    bool m_at_start_of_input{true};
     bool m_has_start_of_log{false};
     Token m_start_of_log_message{};
     std::unique_ptr<LogEventView> m_log_event_view{nullptr};
-- 
2.43.0


From 8a64bd3dbf844f96ba5b9db62224ead5eb484533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 10/46] fix: keep reading after an event that ends at the end
 of the input buffer

An event without a timestamp reported the position after its last character as
the last consumed one. At the end of the buffer that is position 0, which was
taken to mean that nothing was consumed: the parser never read again and grew
its buffer until it ran out of memory.
---
 src/log_surgeon/LogParser.cpp         | 3 ++-
 src/log_surgeon/ParserInputBuffer.cpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index db124dc..375fd30 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -248,7 +248,8 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_end_pos);
+            // The newline is the last character of this log event
+            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_start_pos);
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
             return ErrorCode::Success;
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..9a5608e 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -24,8 +24,8 @@ auto ParserInputBuffer::read_is_safe() -> bool {
     }
     // Check if the last log message ends in the buffer half last read.
     // This means the other half of the buffer has already been fully used.
-    if ((!m_last_read_first_half && m_consumed_pos > m_storage.size() / 2)
-        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2 && m_consumed_pos > 0))
+    if ((!m_last_read_first_half && m_consumed_pos >= m_storage.size() / 2)
+        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2))
     {
         return true;
     }
-- 
2.43.0


From d2405fda21331404d341d167c986454b6df4bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 11/46] fix: end an event without a timestamp at its newline
 even if the line is empty

A newline that was the first token of such an event did not end it, so an empty
line was merged with the line after it.
---
 src/log_surgeon/LogParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 375fd30..dedc4cc 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -225,6 +225,12 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             output_buffer->set_has_timestamp(false);
             output_buffer->set_token(1, next_token);
             output_buffer->set_pos(2);
+            if (next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewline) {
+                // The log event is an empty line
+                m_input_buffer.set_consumed_pos(next_token.m_start_pos);
+                parsing_action = ParsingAction::Compress;
+                return ErrorCode::Success;
+            }
         }
         m_has_start_of_log = false;
     }
-- 
2.43.0


From 3ab67505dc880d1a6947e3ac8a955616cb38ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 12/46] fix: keep the lexer's positions right when the input
 buffer grows

A position at the boundary where the buffer was grown could stand for the start
or the end of the content and was moved to the wrong one, e.g. when the newline
that ends an event is the last character before the boundary. The event was
then lost or filled with other bytes.
---
 src/log_surgeon/Lexer.hpp |  8 +++++---
 src/log_surgeon/Lexer.tpp | 40 +++++++++++++++------------------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..8114886 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -74,11 +74,13 @@ public:
     auto prepend_start_of_file_char(ParserInputBuffer& input_buffer) -> void;
 
     /**
-     * Flip lexer states to match static buffer flipping.
+     * Moves the positions tracked by the lexer to where the same characters are
+     * in a grown buffer.
      * @param old_storage_size The previous buffer size used to calculate the
-     * new states inside the flipped buffer.
+     * new positions inside the grown buffer.
+     * @param flipped Whether the halves of the old buffer were swapped.
      */
-    auto flip_states(uint32_t old_storage_size) -> void;
+    auto rebase_states(uint32_t old_storage_size, bool flipped) -> void;
 
     /**
      * Gets next token from the input string
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 977a4c4..0ac0d8a 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -18,24 +18,20 @@
  */
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
-void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
-        m_match_pos -= old_storage_size / 2;
-    } else {
-        m_match_pos += old_storage_size / 2;
-    }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
-        m_start_pos -= old_storage_size / 2;
-    } else {
-        m_start_pos += old_storage_size / 2;
-    }
-    if (m_last_match_pos >= old_storage_size / 2) {
-        m_last_match_pos -= old_storage_size / 2;
-    } else {
-        m_last_match_pos += old_storage_size / 2;
-    }
+void Lexer<NFAStateType, DFAStateType>::rebase_states(
+        uint32_t const old_storage_size,
+        bool const flipped
+) {
+    // The buffer is only grown once all of it has been scanned, and its content then ends at
+    // `old_storage_size` in the new buffer. A tracked position equal to the old end of the content
+    // always stands for the end, since the character after it can't be the start of the content.
+    uint32_t const old_end_pos{flipped ? old_storage_size / 2 : 0};
+    auto rebase = [&](uint32_t& pos) {
+        pos = old_storage_size - (old_end_pos + old_storage_size - pos) % old_storage_size;
+    };
+    rebase(m_match_pos);
+    rebase(m_start_pos);
+    rebase(m_last_match_pos);
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -306,13 +302,7 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     bool flipped_static_buffer{false};
     input_buffer.increase_capacity(old_storage_size, flipped_static_buffer);
     if (old_storage_size < input_buffer.storage().size()) {
-        if (flipped_static_buffer) {
-            flip_states(old_storage_size);
-        }
-        if (0 == m_last_match_pos) {
-            m_last_match_pos = old_storage_size;
-            m_start_pos = old_storage_size;
-        }
+        rebase_states(old_storage_size, flipped_static_buffer);
     }
 }
 
-- 
2.43.0


From f42a2234ee1415934d2b12f0786d303fb39dd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 13/46] fix: don't resume a failed match when the lexer runs
 out of input

If the input ran out while the lexer skipped the rest of a failed match, it
resumed in the DFA state from before the failure, so characters on both sides
of the gap could be joined into a token that isn't in the input.
---
 src/log_surgeon/Lexer.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 0ac0d8a..841de2e 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -68,15 +68,16 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_prev_state = state;
             return err;
         }
+        // There's no state if the input ran out while skipping to the next possible token
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && nullptr != state && state->is_accepting())
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
             m_match_pos = prev_byte_buf_pos;
             m_match_line = m_line;
         }
-        DFAStateType* next = state->next(next_char);
+        DFAStateType* next = nullptr == state ? nullptr : state->next(next_char);
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -148,7 +149,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                     ErrorCode::Success != err)
                 {
                     m_asked_for_more_data = true;
-                    m_prev_state = state;
+                    m_prev_state = nullptr;
                     return err;
                 }
             }
-- 
2.43.0


From 83bde6442deaaadd48c81545e9dd133af7d1fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 14/46] fix: find variables in text that starts like a
 timestamp at the start of input

If the start of the input looked like a timestamp but wasn't one, the lexer
skipped past all the text it had compared, even though a timestamp may contain
delimiters and the text may therefore contain variables.
---
 src/log_surgeon/Lexer.hpp |  2 ++
 src/log_surgeon/Lexer.tpp | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index 8114886..5d21cf4 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -160,6 +160,8 @@ private:
     bool m_has_delimiters{false};
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
+    // the token being scanned follows the start of file character
+    bool m_is_start_of_file{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 841de2e..fac74b0 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -91,6 +91,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         }
         if (input_buffer.log_fully_consumed() || next == nullptr) {
             if (m_match) {
+                m_is_start_of_file = false;
                 input_buffer.set_log_fully_consumed(false);
                 input_buffer.set_pos(m_match_pos);
                 m_line = m_match_line;
@@ -139,6 +140,15 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                                 &cTokenEndTypes};
                 return ErrorCode::Success;
             }
+            if (m_is_start_of_file) {
+                // The characters read so far may start a variable, since the first timestamp may
+                // contain delimiters
+                m_is_start_of_file = false;
+                input_buffer.set_log_fully_consumed(false);
+                input_buffer.set_pos(m_start_pos);
+                state = m_dfa->get_root();
+                continue;
+            }
             // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
             // check not needed
             while (input_buffer.log_fully_consumed() == false
@@ -318,6 +328,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_last_match_line = 0;
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
+    m_is_start_of_file = false;
     m_prev_state = nullptr;
 }
 
@@ -326,6 +337,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_is_start_of_file = true;
     m_last_match_pos = input_buffer.storage().pos();
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
-- 
2.43.0


From 26033b63cc80036339b8d6299fe28e24a9f974b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 15/46] fix: don't take a short read for the end of the input

A Reader reports the end of its input with ErrorCode::EndOfFile, but any read
that returned fewer bytes than requested, as e.g. reads from pipes and sockets
do, also ended the input, and the rest of it was lost.
---
 src/log_surgeon/ParserInputBuffer.cpp | 42 ++++++++++++++++-----------
 src/log_surgeon/ParserInputBuffer.hpp |  8 ++++-
 src/log_surgeon/SchemaParser.cpp      |  2 +-
 3 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 9a5608e..f9e32b5 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -13,6 +13,7 @@ void ParserInputBuffer::reset() {
     m_log_fully_consumed = false;
     m_finished_reading_input = false;
     m_pos_last_read_char = 0;
+    m_bytes_read_into_half = 0;
     m_last_read_first_half = false;
     m_storage.reset();
     m_consumed_pos = m_storage.size() - 1;
@@ -33,31 +34,38 @@ auto ParserInputBuffer::read_is_safe() -> bool {
 }
 
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
-    size_t bytes_read{0};
     // read into the correct half of the buffer
-    uint32_t read_offset{0};
-    if (m_last_read_first_half) {
-        read_offset = m_storage.size() / 2;
-    }
-    if (ErrorCode err = m_storage.read(reader, read_offset, m_storage.size() / 2, bytes_read);
-        ErrorCode::Success != err)
-    {
-        if (ErrorCode::EndOfFile == err) {
+    uint32_t const half_size{m_storage.size() / 2};
+    uint32_t const read_offset{m_last_read_first_half ? half_size : 0};
+    // A reader may return fewer bytes than requested before the end of its input is reached, so keep
+    // reading until the half is full. If the reader fails the bytes already read are kept, such that
+    // the next read continues after them.
+    while (m_bytes_read_into_half < half_size) {
+        size_t bytes_read{0};
+        ErrorCode const err = m_storage.read(
+                reader,
+                read_offset + m_bytes_read_into_half,
+                half_size - m_bytes_read_into_half,
+                bytes_read
+        );
+        if (ErrorCode::EndOfFile == err || (ErrorCode::Success == err && 0 == bytes_read)) {
             m_finished_reading_input = true;
+            break;
+        }
+        if (ErrorCode::Success != err) {
+            return err;
         }
-        return err;
+        m_bytes_read_into_half += bytes_read;
     }
-    m_last_read_first_half = !m_last_read_first_half;
-    // TODO: This is not a portable check for certain forms of IO
-    // A method from Reader should be used to check if the input source is
-    // finished
-    if (bytes_read < m_storage.size() / 2) {
-        m_finished_reading_input = true;
+    if (0 == m_bytes_read_into_half) {
+        return ErrorCode::EndOfFile;
     }
-    m_pos_last_read_char += bytes_read;
+    m_last_read_first_half = !m_last_read_first_half;
+    m_pos_last_read_char += m_bytes_read_into_half;
     if (m_pos_last_read_char > m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
     }
+    m_bytes_read_into_half = 0;
     return ErrorCode::Success;
 }
 
diff --git a/src/log_surgeon/ParserInputBuffer.hpp b/src/log_surgeon/ParserInputBuffer.hpp
index 3d5f735..11e9db0 100644
--- a/src/log_surgeon/ParserInputBuffer.hpp
+++ b/src/log_surgeon/ParserInputBuffer.hpp
@@ -118,14 +118,20 @@ public:
 
 private:
     /**
-     * Reads into the half of the buffer currently available.
+     * Reads into the half of the buffer currently available until it is full or
+     * the end of the input is reached.
      * @param reader to use for IO.
+     * @return ErrorCode::Success if any bytes were read.
+     * @return ErrorCode::EndOfFile if the end of the input was reached.
+     * @return ErrorCode forwarded from the reader.
      */
     auto read(Reader& reader) -> ErrorCode;
 
 private:
     // the position of the last character read into the buffer
     uint32_t m_pos_last_read_char{0};
+    // the number of bytes already read into the half of the buffer that isn't completely read yet
+    uint32_t m_bytes_read_into_half{0};
     bool m_last_read_first_half{false};
     // the log has been completely read into the buffer
     bool m_finished_reading_input{false};
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 0b5aab8..c5fb9ba 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    size_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
-- 
2.43.0


From 86f2d8ca87307b4e6331d7cac343190ffcc32b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 16/46] fix: don't lose part of an event when the reader fails
 while it is parsed

Calling ReaderParser::parse_next_event again after a read error dropped the
tokens of the event that had been parsed before the error.
---
 src/log_surgeon/ReaderParser.cpp | 7 ++++++-
 src/log_surgeon/ReaderParser.hpp | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/ReaderParser.cpp b/src/log_surgeon/ReaderParser.cpp
index bcb5c7d..223954d 100644
--- a/src/log_surgeon/ReaderParser.cpp
+++ b/src/log_surgeon/ReaderParser.cpp
@@ -14,12 +14,16 @@ ReaderParser::ReaderParser(std::string const& schema_file_path) : m_log_parser(s
 
 auto ReaderParser::reset_and_set_reader(Reader& reader) -> void {
     m_done = false;
+    m_is_event_incomplete = false;
     m_log_parser.reset();
     m_reader = reader;
 }
 
 auto ReaderParser::parse_next_event() -> ErrorCode {
-    m_log_parser.reset_log_event_view();
+    if (false == m_is_event_incomplete) {
+        m_log_parser.reset_log_event_view();
+    }
+    m_is_event_incomplete = true;
     if (ErrorCode err = m_log_parser.read_into_input(m_reader);
         ErrorCode::Success != err && ErrorCode::EndOfFile != err)
     {
@@ -45,6 +49,7 @@ auto ReaderParser::parse_next_event() -> ErrorCode {
             return parse_error;
         }
     }
+    m_is_event_incomplete = false;
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/ReaderParser.hpp b/src/log_surgeon/ReaderParser.hpp
index 9465efb..e63aa1d 100644
--- a/src/log_surgeon/ReaderParser.hpp
+++ b/src/log_surgeon/ReaderParser.hpp
@@ -52,7 +52,8 @@ public:
      * @return ErrorCode::Success if a log event is successfully parsed as a
      * LogEventView.
      * @return ErrorCode from LogParser::parse.
-     * @return ErrorCode from the user defined Reader::read.
+     * @return ErrorCode from the user defined Reader::read. The bytes read so
+     * far are kept, such that the next call continues to parse the same event.
      * @throw std::bad_alloc if a log event is large enough to exhaust memory.
      */
     auto parse_next_event() -> ErrorCode;
@@ -82,6 +83,8 @@ private:
     Reader m_reader;
     LogParser m_log_parser;
     bool m_done{false};
+    // the last attempt to parse an event failed before the event was complete
+    bool m_is_event_incomplete{false};
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From 9238f4e6e37348bf5123bf59b037bd016f82faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 17/46] fix: report read errors while parsing a schema

A read error was taken for the end of the schema file, so the rules after it
were silently dropped.
---
 src/log_surgeon/LALR1Parser.tpp  | 6 +++++-
 src/log_surgeon/SchemaParser.cpp | 6 +-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..d30cba9 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -634,7 +634,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
-        m_input_buffer.read_if_safe(reader);
+        if (ErrorCode const err = m_input_buffer.read_if_safe(reader);
+            ErrorCode::Success != err && ErrorCode::EndOfFile != err)
+        {
+            throw std::runtime_error("Error reading input.");
+        }
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
             break;
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index c5fb9ba..edd1f0e 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -72,11 +72,7 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }
     SchemaParser sp;
     Reader reader{[&](char* buf, size_t count, size_t& read_to) -> ErrorCode {
-        schema_reader.read(buf, count, read_to);
-        if (read_to == 0) {
-            return ErrorCode::EndOfFile;
-        }
-        return ErrorCode::Success;
+        return schema_reader.read(buf, count, read_to);
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
-- 
2.43.0


From 115df541f4d6d3770d15ba2c518cbbe4e73836a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 18/46] fix: keep a variable's first character out of the
 logtype

The logtype starts each variable with the delimiter before it, which was taken
to be the first character of the token. The variable a line starts with has no
delimiter in its token, so part of its value became part of the logtype.
---
 src/log_surgeon/LogEvent.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index fd96941..8786ee5 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,11 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // The first token of a line has no preceding delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && 0 < token.get_length()
+                && m_log_parser.m_lexer.is_delimiter(static_cast<uint8_t>(token.get_char(0))))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From b04499e099b305737e5df80af91aba147742afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 19/46] fix: mark an event multiline if its last line is a
 single variable

The newline before such a variable is part of the event's last token, which was
taken for the newline that ends the event.
---
 src/log_surgeon/LogParser.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index dedc4cc..ea76dab 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -305,20 +305,16 @@ auto LogParser::generate_log_event_view_metadata() -> void {
     if (false == m_log_event_view->m_log_output_buffer->has_timestamp()) {
         start = 1;
     }
-    uint32_t first_newline_pos{0};
     for (uint32_t i = start; i < m_log_event_view->m_log_output_buffer->pos(); i++) {
         Token* token = &m_log_event_view->m_log_output_buffer->get_mutable_token(i);
         m_log_event_view->add_token(token->m_type_ids_ptr->at(0), token);
-        if (token->get_delimiter() == "\n" && first_newline_pos == 0) {
-            first_newline_pos = i;
+        // To be a multiline log there must be at least one character after a newline character.
+        if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < i
+            && 0 < token->get_length() && '\n' == token->get_char(0)
+            && (1 < token->get_length() || i + 1 < m_log_event_view->m_log_output_buffer->pos()))
+        {
+            m_log_event_view->set_multiline(true);
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
-    if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
-    {
-        m_log_event_view->set_multiline(true);
-    }
 }
 }  // namespace log_surgeon
-- 
2.43.0


From f699afe3e392f91ba426e67cdcb4be7c6103e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 20/46] fix: order a token's types as their rules are ordered
 in the schema

The types of a DFA state were ordered by the addresses of its NFA states, so
which variable a token was assigned to depended on the allocator.
---
 src/log_surgeon/LexicalRule.hpp                   | 10 ++++++++--
 src/log_surgeon/finite_automata/RegexDFA.hpp      |  1 +
 src/log_surgeon/finite_automata/RegexDFA.tpp      | 10 +++++++++-
 src/log_surgeon/finite_automata/RegexNFA.hpp      |  4 ++--
 src/log_surgeon/finite_automata/RegexNFAState.hpp |  8 ++++++++
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/LexicalRule.hpp b/src/log_surgeon/LexicalRule.hpp
index 9aa9328..90cca75 100644
--- a/src/log_surgeon/LexicalRule.hpp
+++ b/src/log_surgeon/LexicalRule.hpp
@@ -20,8 +20,10 @@ public:
     /**
      * Adds AST representing the lexical rule to the NFA
      * @param nfa
+     * @param rule_index The position of this rule among the NFA's rules
      */
-    auto add_to_nfa(finite_automata::RegexNFA<NFAStateType>* nfa) const -> void;
+    auto add_to_nfa(finite_automata::RegexNFA<NFAStateType>* nfa, uint32_t rule_index) const
+            -> void;
 
     [[nodiscard]] auto get_variable_id() const -> uint32_t { return m_variable_id; }
 
@@ -36,10 +38,14 @@ private:
 };
 
 template <typename NFAStateType>
-void LexicalRule<NFAStateType>::add_to_nfa(finite_automata::RegexNFA<NFAStateType>* nfa) const {
+void LexicalRule<NFAStateType>::add_to_nfa(
+        finite_automata::RegexNFA<NFAStateType>* nfa,
+        uint32_t const rule_index
+) const {
     auto* end_state = nfa->new_state();
     end_state->set_accepting(true);
     end_state->set_matching_variable_id(m_variable_id);
+    end_state->set_matching_rule_index(rule_index);
     m_regex->add_to_nfa_with_negative_tags(nfa, end_state);
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/finite_automata/RegexDFA.hpp b/src/log_surgeon/finite_automata/RegexDFA.hpp
index b549d7c..a3ca075 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <map>
 #include <memory>
 #include <set>
 #include <utility>
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..69e833e 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -44,11 +44,19 @@ auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
+    // The matching variables are ordered as their rules are in the schema
+    std::map<uint32_t, uint32_t> rule_index_to_variable_id;
     for (auto const* nfa_state : nfa_state_set) {
         if (nfa_state->is_accepting()) {
-            dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+            rule_index_to_variable_id.emplace(
+                    nfa_state->get_matching_rule_index(),
+                    nfa_state->get_matching_variable_id()
+            );
         }
     }
+    for (auto const& [rule_index, variable_id] : rule_index_to_variable_id) {
+        dfa_state->add_matching_variable_id(variable_id);
+    }
     return dfa_state;
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..96d20bb 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -102,8 +102,8 @@ template <typename NFAStateType>
 RegexNFA<NFAStateType>::RegexNFA(std::vector<LexicalRule<NFAStateType>> rules)
         : m_root{new_state()},
           m_rules{std::move(rules)} {
-    for (auto const& rule : m_rules) {
-        rule.add_to_nfa(this);
+    for (uint32_t i{0}; i < m_rules.size(); ++i) {
+        m_rules[i].add_to_nfa(this, i);
     }
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFAState.hpp b/src/log_surgeon/finite_automata/RegexNFAState.hpp
index 8fce8cf..082f2b7 100644
--- a/src/log_surgeon/finite_automata/RegexNFAState.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFAState.hpp
@@ -49,6 +49,12 @@ public:
         return m_matching_variable_id;
     }
 
+    auto set_matching_rule_index(uint32_t const rule_index) -> void {
+        m_matching_rule_index = rule_index;
+    }
+
+    [[nodiscard]] auto get_matching_rule_index() const -> uint32_t { return m_matching_rule_index; }
+
     auto
     add_positive_tagged_start_transition(Tag const* tag, RegexNFAState const* dest_state) -> void {
         m_positive_tagged_start_transitions.emplace_back(tag, dest_state);
@@ -110,6 +116,8 @@ public:
 private:
     bool m_accepting{false};
     uint32_t m_matching_variable_id{0};
+    // The position, among the NFA's rules, of the rule this accepting state belongs to
+    uint32_t m_matching_rule_index{0};
     std::vector<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_start_transitions;
     std::optional<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_end_transition;
     std::optional<NegativeTaggedTransition<RegexNFAState>> m_negative_tagged_transition;
-- 
2.43.0


From f8e7db518cfbec9f358fc16226c24cdc96de63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 21/46] fix: don't overflow the schema parser's array of
 matched symbols

All the symbols matched while parsing schemas were stored in one array of fixed
size, whose end was only checked by an assertion, and which was only reused
after a variable. A regex of about 3,000 characters, a long comment or parsing
several schemas in a row overflowed it.
---
 src/log_surgeon/LALR1Parser.cpp | 5 ++++-
 src/log_surgeon/LALR1Parser.hpp | 6 +++---
 src/log_surgeon/LALR1Parser.tpp | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..7f7584e 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,7 +1,7 @@
 #include "LALR1Parser.hpp"
 
 namespace log_surgeon {
-MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
+std::vector<MatchedSymbol> NonTerminal::m_all_children(cSizeOfAllChildren);
 
 ParserAST::~ParserAST() = default;
 
@@ -12,5 +12,8 @@ NonTerminal::NonTerminal(Production* p)
           m_production(p),
           m_ast(nullptr) {
     NonTerminal::m_next_children_start += p->m_body.size();
+    if (NonTerminal::m_next_children_start > NonTerminal::m_all_children.size()) {
+        NonTerminal::m_all_children.resize(2 * NonTerminal::m_next_children_start);
+    }
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..fb4eec0 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -76,7 +76,7 @@ public:
      * @return Token*
      */
     [[nodiscard]] auto token_cast(uint32_t i) const -> Token* {
-        assert(i < cSizeOfAllChildren);
+        assert(m_children_start + i < m_all_children.size());
         return &std::get<Token>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -88,7 +88,7 @@ public:
      * @return NonTerminal*
      */
     [[nodiscard]] auto non_terminal_cast(uint32_t i) const -> NonTerminal* {
-        assert(i < cSizeOfAllChildren);
+        assert(m_children_start + i < m_all_children.size());
         return &std::get<NonTerminal>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -99,7 +99,7 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static MatchedSymbol m_all_children[];
+    static std::vector<MatchedSymbol> m_all_children;
     static uint32_t m_next_children_start;
     uint32_t m_children_start;
     Production* m_production;
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index d30cba9..cca4fe4 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -543,7 +543,8 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
                         },
                         [&parse_stack_matches](NonTerminal& m) {
                             for (size_t i = 0; i < m.m_production->m_body.size(); i++) {
-                                assert(m.m_children_start + i < cSizeOfAllChildren);
+                                assert(m.m_children_start + i
+                                       < NonTerminal::m_all_children.size());
                                 parse_stack_matches.push(std::move(
                                         NonTerminal::m_all_children[m.m_children_start + i]
                                 ));
@@ -663,6 +664,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     while (!m_parse_stack_matches.empty()) {
         m_parse_stack_matches.pop();
     }
+    NonTerminal::m_next_children_start = 0;
     m_input_buffer.reset();
     this->m_lexer.reset();
 }
@@ -730,7 +732,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                         for (size_t i = 0; i < n; i++) {
                             m_parse_stack_states.pop();
                             assert((matched_non_terminal.m_children_start + n - i - 1)
-                                   < cSizeOfAllChildren);
+                                   < NonTerminal::m_all_children.size());
                             NonTerminal::m_all_children
                                     [matched_non_terminal.m_children_start + n - i - 1]
                                     = std::move(m_parse_stack_matches.top());
-- 
2.43.0


From 24181b9300c130d03f0d8f2e64f8a5a3feda47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 22/46] fix: reject delimiters that aren't single characters

`delimiters:(ab)` is accepted by the schema grammar, and the missing literal was
dereferenced.
---
 src/log_surgeon/SchemaParser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index edd1f0e..3182b94 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -410,19 +410,25 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+static auto get_delimiter(unique_ptr<RegexASTByte> const& regex_ast) -> uint32_t {
+    auto const* literal = dynamic_cast<RegexASTLiteralByte const*>(regex_ast.get());
+    if (nullptr == literal) {
+        throw std::runtime_error("A delimiter in the schema is not a single character.");
+    }
+    return literal->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
-    r1_ptr->add_delimiter(character);
+    r1_ptr->add_delimiter(get_delimiter(r2));
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
-    return make_unique<DelimiterStringAST>(character);
+    return make_unique<DelimiterStringAST>(get_delimiter(r1));
 }
 
 void SchemaParser::add_lexical_rules() {
-- 
2.43.0


From c81a994658f22f2b1cf9dd467b8509035f98486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 23/46] fix: reject out of order ranges in bracket expressions

`[z-a]` was only caught by an assertion, which also failed for the valid range
`[a-a]`.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 706cbbb..ca69a70 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1032,7 +1032,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
         );
     }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error("A range in a bracket expression in the schema is out of order.");
+    }
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From 61b86b379d55440abfc746e260316ba55010960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 24/46] fix: reject adding a schema string without a variable
 as a variable

---
 src/log_surgeon/Schema.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/Schema.cpp b/src/log_surgeon/Schema.cpp
index e2008b1..f25cb09 100644
--- a/src/log_surgeon/Schema.cpp
+++ b/src/log_surgeon/Schema.cpp
@@ -1,5 +1,6 @@
 #include "Schema.hpp"
 
+#include <stdexcept>
 #include <string>
 
 namespace log_surgeon {
@@ -12,6 +13,9 @@ Schema::Schema(std::string const& schema_file_path)
 
 auto Schema::add_variable(std::string_view const var_schema, int const priority) const -> void {
     std::unique_ptr<SchemaAST> const schema_ast = SchemaParser::try_schema_string(var_schema);
+    if (schema_ast->m_schema_vars.empty()) {
+        throw std::runtime_error("The given schema string doesn't contain a variable.");
+    }
     m_schema_ast->add_schema_var(std::move(schema_ast->m_schema_vars[0]), priority);
 }
 }  // namespace log_surgeon
-- 
2.43.0


From 2db14a04286512f5b65a9f0c924b379ff313c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 25/46] fix: don't dereference a missing DFA state when
 scanning with a `?` wildcard

---
 src/log_surgeon/Lexer.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index fac74b0..3b8eb9d 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -247,7 +247,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
                 if (wildcard == '?') {
                     for (uint32_t byte = 0; byte < cSizeOfByte; byte++) {
                         DFAStateType* next_state = state->next(byte);
-                        if (next_state->is_accepting() == false) {
+                        if (nullptr == next_state || next_state->is_accepting() == false) {
                             token
                                     = Token{m_last_match_pos,
                                             input_buffer.storage().pos(),
-- 
2.43.0


From 88dcc2c2a829981c379ea1001832bdbf3271015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 26/46] fix: let a negated bracket expression without
 characters match any character

The complement of no ranges was taken to be empty, so `[^]` never matched.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index ca69a70..f93099a 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1084,7 +1084,7 @@ auto RegexASTGroup<NFAStateType>::complement(std::vector<Range> const& ranges
         }
         low = end + 1;
     }
-    if (low > 0) {
+    if (low <= cUnicodeMax) {
         complemented.emplace_back(low, cUnicodeMax);
     }
     return complemented;
-- 
2.43.0


From 39ea95df4703749a707580a4c001b93a3808d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 27/46] fix: find nothing in an empty interval tree

find() dereferenced the missing root.
---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index e5b2413..1a1875a 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -55,7 +55,9 @@ template <typename T>
 auto UnicodeIntervalTree<T>::find(Interval interval
 ) -> std::unique_ptr<std::vector<typename UnicodeIntervalTree<T>::Data>> {
     std::unique_ptr<std::vector<Data>> results(new std::vector<Data>);
-    m_root->find(interval, results.get());
+    if (m_root != nullptr) {
+        m_root->find(interval, results.get());
+    }
     return results;
 }
 
-- 
2.43.0


From 2ae3d6486763e351bffefb382ef55beb0b0addfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 28/46] fix: pop every overlapping interval from an interval
 tree

pop() assumed that a node overlaps the interval if its subtree's bounds do and
its left subtree holds no overlapping interval, and so removed intervals that
don't overlap (or asserted) when the overlapping one is to the right or in none
of them. pop_min() asserted if the subtree's minimum is a leaf.
---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 1a1875a..8767675 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -109,7 +109,11 @@ auto UnicodeIntervalTree<T>::Node::pop(
         node->update();
         return Node::balance(std::move(node));
     }
-    assert(node->overlaps(interval));
+    if (!node->overlaps(interval)) {
+        node->m_right = Node::pop(std::move(node->m_right), interval, ret);
+        node->update();
+        return Node::balance(std::move(node));
+    }
     ret->reset(node.release());
     if (((*ret)->m_left == nullptr) && ((*ret)->m_right == nullptr)) {
         return nullptr;
@@ -133,7 +137,6 @@ auto UnicodeIntervalTree<T>::Node::pop_min(std::unique_ptr<Node> node, std::uniq
         -> std::unique_ptr<typename UnicodeIntervalTree<T>::Node> {
     assert(node != nullptr);
     if (node->m_left == nullptr) {
-        assert(node->m_right != nullptr);
         std::unique_ptr<Node> right(std::move(node->m_right));
         ret->reset(node.release());
         return right;
-- 
2.43.0


From 8eccd331d7f7dacc442a32e5c5cde9623bd39a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 29/46] fix: balance the interval tree by its subtrees' heights

balance_factor() subtracted the addresses of the children (undefined behaviour,
and a rotation towards a missing child for some addresses), and update() gave a
node with one child a height of two whatever its child's height.
---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 8767675..04b49f6 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -153,11 +153,11 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
         m_lower = m_interval.first;
         m_upper = m_interval.second;
     } else if (m_left == nullptr) {
-        m_height = 2;
+        m_height = m_right->m_height + 1;
         m_lower = m_interval.first;
         m_upper = std::max(m_interval.second, m_right->m_upper);
     } else if (m_right == nullptr) {
-        m_height = 2;
+        m_height = m_left->m_height + 1;
         m_lower = m_left->m_lower;
         m_upper = std::max(m_interval.second, m_left->m_upper);
     } else {
@@ -169,7 +169,8 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
 
 template <class T>
 auto UnicodeIntervalTree<T>::Node::balance_factor() -> int {
-    return (m_right != nullptr ? m_right.get() : 0) - (m_left != nullptr ? m_left.get() : 0);
+    return static_cast<int>(m_right != nullptr ? m_right->m_height : 0)
+           - static_cast<int>(m_left != nullptr ? m_left->m_height : 0);
 }
 
 template <class T>
-- 
2.43.0


From 8ba2f4dbf78461af9a22abbc443f8ad5ac68a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 30/46] fix: accept variables with a negated bracket expression

A negated bracket expression that excludes all of the schema's delimiters was
always rejected for matching the internal start of file character, which is
stored as a delimiter but can't be written in a schema.
---
 src/log_surgeon/LogParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index ea76dab..996d010 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -99,6 +99,10 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
+            // A schema can't name the internal start of file character to exclude it
+            if (utf8::cCharStartOfFile == delimiter) {
+                continue;
+            }
             if (is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
-- 
2.43.0


From bfa8348726494593ecbbd822de510b410618139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 31/46] fix: report where the next log event starts in
 BufferParser

On success the offset is documented to be the start of the next unparsed log
event, but it was the position after that event's first token if finding that
token is what ended the event. A caller that reset the parser and resumed from
the offset lost the token.
---
 src/log_surgeon/BufferParser.cpp |  2 +-
 src/log_surgeon/LogParser.hpp    | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 43670ca..abc8ee1 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -44,7 +44,7 @@ auto BufferParser::parse_next_event(
     if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
         m_done = true;
     }
-    offset = m_log_parser.get_input_pos();
+    offset = m_log_parser.get_next_event_pos();
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 663473f..ece382e 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -78,13 +78,18 @@ public:
      * is passed in.
      * @param storage A pointer to the new buffer to use as the input buffer.
      * @param size The size of the buffer pointed to by storage.
-     * @param pos The current position into the buffer (storage) to set.
+     * @param pos The current position into the buffer (storage) to set, which
+     * is where the next unparsed log event starts.
      * @param finished_reading_input True if there is no more input left to
      * process, so the parser will finish consuming the entire buffer without
      * requesting more input data.
      */
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
+        if (m_has_start_of_log) {
+            // The next log event's first token was already lexed
+            pos = m_start_of_log_message.m_end_pos;
+        }
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
         if (m_at_start_of_input) {
             // The input doesn't have to start at the beginning of the buffer
@@ -98,6 +103,14 @@ public:
      */
     auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
 
+    /**
+     * @return the position inside the input buffer at which the next unparsed
+     * log event starts. The parser may already be past its first token.
+     */
+    auto get_next_event_pos() -> uint32_t {
+        return m_has_start_of_log ? m_start_of_log_message.m_start_pos : get_input_pos();
+    }
+
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
      * @param reader to use for IO.
-- 
2.43.0


From e67f17d16de6595a2d7f9a779f89bd3ff008d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 32/46] fix: end an event without timestamp after a newline
 that its first token starts with

The first token of an event may be a variable on the next line, preceded by
the newline of an empty line. As in later tokens of an event without
timestamp, that newline ends the event.
---
 src/log_surgeon/LogParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 996d010..ac2426e 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -187,8 +187,12 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
+            auto const token_type = next_token.m_type_ids_ptr->at(0);
             if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
+                && (token_type == (uint32_t)SymbolId::TokenNewlineTimestamp
+                    || (token_type != (uint32_t)SymbolId::TokenNewline
+                        && token_type != (uint32_t)SymbolId::TokenFirstTimestamp
+                        && 0 < next_token.get_length() && next_token.get_char(0) == '\n')))
             {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
-- 
2.43.0


From a2e93bb9979cc4b69da503d31e214ee90dfecf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 33/46] fix: an optional repetition of a looping operand could
 be entered in the middle of the operand

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index f93099a..5e45d6a 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -876,6 +876,15 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
         NFAStateType* end_state
 ) const {
     NFAStateType* saved_root = nfa->get_root();
+    auto add_last_operand_to_nfa = [&]() -> void {
+        // With no repetition at all, `end_state` must not be able to continue with a loop of the
+        // operand.
+        if (this->m_min == 0) {
+            m_operand->add_alternative_to_nfa(nfa, end_state);
+        } else {
+            m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    };
     if (this->m_min == 0) {
         nfa->get_root()->add_epsilon_transition(end_state);
     } else {
@@ -888,7 +897,7 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
     }
     if (this->is_infinite()) {
         nfa->set_root(end_state);
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        add_last_operand_to_nfa();
     } else if (this->m_max > this->m_min) {
         if (this->m_min != 0) {
             NFAStateType* intermediate_state = nfa->new_state();
@@ -896,12 +905,12 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
             nfa->set_root(intermediate_state);
         }
         for (uint32_t i = this->m_min + 1; i < this->m_max; ++i) {
-            m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+            add_last_operand_to_nfa();
             NFAStateType* intermediate_state = nfa->new_state();
             m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
             nfa->set_root(intermediate_state);
         }
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        add_last_operand_to_nfa();
     }
     nfa->set_root(saved_root);
 }
-- 
2.43.0


From e5d1102a4b045cb1ba18ff7c1937b4f27ebbfec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 34/46] fix: the syntax error of a schema at the end of a line
 was reported for the following line

---
 src/log_surgeon/LALR1Parser.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index cca4fe4..8a986be 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -586,6 +586,10 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     m_parse_stack_matches.pop();
     uint32_t line_num = get_line_num(top_symbol);
     Token token = std::get<Token>(top_symbol);
+    // A token has the number of the line it ends in, which for a newline is the following one
+    if (token.to_string() == "\n") {
+        line_num--;
+    }
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-- 
2.43.0


From 5c2e8fa53909939f53c3787f44dd3f6238813ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 35/46] fix: the syntax error of a schema after a lone carriage
 return was reported for the wrong column

---
 src/log_surgeon/LALR1Parser.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 8a986be..489f036 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -530,7 +530,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
         std::visit(
                 Overloaded{
                         [&error_message_reversed, &done](Token& token) {
-                            if (token.to_string() == "\r" || token.to_string() == "\n") {
+                            if (token.to_string() == "\n") {
                                 done = true;
                             } else {
                                 // input is being read backwards, so reverse
-- 
2.43.0


From 491951450ad121e0dfbc4696c102f96877831080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 36/46] fix: the message of a syntax error at the end of a
 schema was cut off by a null character

---
 src/log_surgeon/LALR1Parser.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 489f036..87d0b52 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -621,7 +621,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
             }
         }
         error_type.pop_back();
-        error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) {
+            error_type += " before the end of the schema";
+        } else {
+            error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        }
     }
     std::string error_string = "Schema:" + std::to_string(line_num + 1) + ":"
                                + std::to_string(consumed_input.size() + 1)
-- 
2.43.0


From 199c4087e02541b119e81cf814188c54bb3da25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 37/46] fix: \s in a bracket expression of a schema was
 rejected

---
 src/log_surgeon/SchemaParser.cpp             |  4 ++--
 src/log_surgeon/finite_automata/RegexAST.hpp | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 3182b94..e2dd42b 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -587,12 +587,12 @@ void SchemaParser::add_productions() {
     add_production(
             "IncompleteGroup",
             {"IncompleteGroup", "WhiteSpace"},
-            regex_add_literal_existing_group_rule
+            regex_add_range_existing_group_rule
     );
     add_production("IncompleteGroup", {"Lbracket", "LiteralRange"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Digit"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Literal"}, regex_add_literal_new_group_rule);
-    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_literal_new_group_rule);
+    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Hat"}, regex_complement_incomplete_group_rule);
     add_production("LiteralRange", {"Literal", "Dash", "Literal"}, regex_range_rule);
     add_production("Literal", {"Backslash", "t"}, regex_tab_rule);
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 5e45d6a..5a62f25 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1007,8 +1007,7 @@ template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* left, RegexASTGroup const* right)
         : m_negate(left->m_negate),
           m_ranges(left->m_ranges) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
+    m_ranges.insert(m_ranges.end(), right->m_ranges.begin(), right->m_ranges.end());
 }
 
 template <typename NFAStateType>
@@ -1023,10 +1022,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTLiteral<NFAStateType> const*
 }
 
 template <typename NFAStateType>
-RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right) : m_negate(false) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
-}
+RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right)
+        : m_negate(false),
+          m_ranges(right->m_ranges) {}
 
 template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(
-- 
2.43.0


From 0ecf7fa58ac03acc7eef2fbf2e8d30559dc59317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 38/46] fix: a schema with a comment longer than the input
 buffer was rejected

---
 src/log_surgeon/SchemaParser.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index e2dd42b..dd93c02 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -418,6 +418,11 @@ static auto get_delimiter(unique_ptr<RegexASTByte> const& regex_ast) -> uint32_t
     return literal->get_character();
 }
 
+// The text of a comment isn't kept, so that its part of the input buffer can be read over
+static auto comment_text_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST> {
+    return nullptr;
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
@@ -530,10 +535,10 @@ void SchemaParser::add_productions() {
     add_production("PortableNewLine", {"CarriageReturn", "NewLine"}, nullptr);
     add_production("PortableNewLine", {"NewLine"}, nullptr);
     add_production("Comment", {"ForwardSlash", "ForwardSlash", "Text"}, nullptr);
-    add_production("Text", {"Text", "CommentCharacters"}, nullptr);
-    add_production("Text", {"CommentCharacters"}, nullptr);
-    add_production("Text", {"Text", "Delimiters"}, nullptr);
-    add_production("Text", {"Delimiters"}, nullptr);
+    add_production("Text", {"Text", "CommentCharacters"}, comment_text_rule);
+    add_production("Text", {"CommentCharacters"}, comment_text_rule);
+    add_production("Text", {"Text", "Delimiters"}, comment_text_rule);
+    add_production("Text", {"Delimiters"}, comment_text_rule);
     add_production(
             "SchemaVar",
             {"WhitespaceStar", "Identifier", "Colon", "Regex"},
-- 
2.43.0


From aa5c5163567308926d7f16039a0ee76ad4cab754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 39/46] fix: a schema whose size is a multiple of the input
 buffer's was rejected

---
 src/log_surgeon/ParserInputBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index f9e32b5..2e013d0 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -62,7 +62,7 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     }
     m_last_read_first_half = !m_last_read_first_half;
     m_pos_last_read_char += m_bytes_read_into_half;
-    if (m_pos_last_read_char > m_storage.size()) {
+    if (m_pos_last_read_char >= m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
     }
     m_bytes_read_into_half = 0;
-- 
2.43.0


From 70664ab71f17cb39eb3dafbf5edfa9c3167b50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 40/46] fix: a schema with a syntax error early on a long line
 was rejected without saying where

---
 src/log_surgeon/LALR1Parser.hpp |  4 ++--
 src/log_surgeon/LALR1Parser.tpp | 27 ++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index fb4eec0..06d6922 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -274,7 +274,7 @@ protected:
      * @param reader
      * @return std::string
      */
-    auto report_error() -> std::string;
+    auto report_error(Reader& reader) -> std::string;
 
     /* Lexer<NFAStateType, DFAStateType> m_lexer; */
     std::stack<MatchedSymbol> m_parse_stack_matches;
@@ -392,7 +392,7 @@ private:
      * @param error_token
      * @return std::string
      */
-    auto get_input_until_next_newline(Token* error_token) -> std::string;
+    auto get_input_until_next_newline(Reader& reader, Token* error_token) -> std::string;
 
     auto symbol_is_token(uint32_t s) -> bool { return m_terminals.find(s) != m_terminals.end(); }
 
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 87d0b52..fb970da 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -559,14 +559,27 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
 }
 
 template <typename NFAStateType, typename DFAStateType>
-auto LALR1Parser<NFAStateType, DFAStateType>::get_input_until_next_newline(Token* error_token
+auto LALR1Parser<NFAStateType, DFAStateType>::get_input_until_next_newline(
+        Reader& reader,
+        Token* error_token
 ) -> std::string {
     std::string rest_of_line;
     bool next_is_end_token = (error_token->m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd);
     bool next_has_newline = (error_token->to_string().find('\n') != std::string::npos)
                             || (error_token->to_string().find('\r') != std::string::npos);
+    uint32_t next_pos{error_token->m_end_pos};
     while (!next_has_newline && !next_is_end_token) {
+        // The input up to the next symbol is no longer needed, so it can be read over
+        m_input_buffer.set_consumed_pos(
+                (0 == next_pos ? m_input_buffer.storage().size() : next_pos) - 1
+        );
+        if (ErrorCode const err = m_input_buffer.read_if_safe(reader);
+            ErrorCode::Success != err && ErrorCode::EndOfFile != err)
+        {
+            throw std::runtime_error("Error reading input.");
+        }
         Token token = get_next_symbol();
+        next_pos = token.m_end_pos;
         next_has_newline = (token.to_string().find('\n') != std::string::npos)
                            || (token.to_string().find('\r') != std::string::npos);
         if (!next_has_newline) {
@@ -579,7 +592,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_until_next_newline(Token
 }
 
 template <typename NFAStateType, typename DFAStateType>
-auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
+auto LALR1Parser<NFAStateType, DFAStateType>::report_error(Reader& reader) -> std::string {
     assert(m_next_token == std::nullopt);
     assert(!m_parse_stack_matches.empty());
     MatchedSymbol top_symbol = std::move(m_parse_stack_matches.top());
@@ -593,8 +606,8 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-    Token error_token = token;
-    std::string rest_of_line = get_input_until_next_newline(&error_token);
+    std::string const error_text{token.to_string()};
+    std::string rest_of_line = get_input_until_next_newline(reader, &token);
     for (uint32_t i = 0; i < consumed_input.size() + 10; i++) {
         error_indicator += " ";
     }
@@ -624,7 +637,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) {
             error_type += " before the end of the schema";
         } else {
-            error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+            error_type += " before '" + unescape(error_text[0]) + "' token";
         }
     }
     std::string error_string = "Schema:" + std::to_string(line_num + 1) + ":"
@@ -633,7 +646,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     for (int i = 0; i < 10; i++) {
         error_string += " ";
     }
-    error_string += consumed_input + error_token.to_string() + rest_of_line + error_indicator;
+    error_string += consumed_input + error_text + rest_of_line + error_indicator;
     return error_string;
 }
 
@@ -654,7 +667,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
         }
     }
     if (!accept) {
-        throw std::runtime_error(report_error());
+        throw std::runtime_error(report_error(reader));
     }
     assert(!m_parse_stack_matches.empty());
     MatchedSymbol m = std::move(m_parse_stack_matches.top());
-- 
2.43.0


From 37b50ed5619c8d7c7a9e54aaba11c84261fabf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 41/46] fix: a syntax error of a schema after a long line was
 reported for the wrong column

---
 src/log_surgeon/LALR1Parser.hpp | 2 +-
 src/log_surgeon/LALR1Parser.tpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index 06d6922..5d6baf5 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -383,7 +383,7 @@ private:
      * @param parse_stack_matches
      * @return std::string
      */
-    static auto get_input_after_last_newline(std::stack<MatchedSymbol>& parse_stack_matches
+    auto get_input_after_last_newline(std::stack<MatchedSymbol>& parse_stack_matches
     ) -> std::string;
 
     /**
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index fb970da..f38c663 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -529,8 +529,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
         parse_stack_matches.pop();
         std::visit(
                 Overloaded{
-                        [&error_message_reversed, &done](Token& token) {
-                            if (token.to_string() == "\n") {
+                        [&error_message_reversed, &done, this](Token& token) {
+                            // The text of a token far back may have been read over
+                            if (this->m_lexer.m_id_symbol.at(token.m_type_ids_ptr->at(0))
+                                == "NewLine")
+                            {
                                 done = true;
                             } else {
                                 // input is being read backwards, so reverse
-- 
2.43.0


From 3d151a5aae466767450162a25c05ef1e138047cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 42/46] fix: refer to the tags of the clone in a cloned regex
 AST

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 22 ++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 5a62f25..88a9cfb 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -458,7 +458,13 @@ public:
     RegexASTOr(RegexASTOr const& rhs)
             : RegexAST<NFAStateType>(rhs),
               m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {
+        // Refer to the tags of the clones, since they may outlive the ASTs that they're cloned from
+        m_left->set_negative_tags(m_right->get_subtree_positive_tags());
+        m_right->set_negative_tags(m_left->get_subtree_positive_tags());
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
+        RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTOr
@@ -521,7 +527,10 @@ public:
     RegexASTCat(RegexASTCat const& rhs)
             : RegexAST<NFAStateType>(rhs),
               m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
+        RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTCat
@@ -590,7 +599,9 @@ public:
             : RegexAST<NFAStateType>(rhs),
               m_operand(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone())),
               m_min(rhs.m_min),
-              m_max(rhs.m_max) {}
+              m_max(rhs.m_max) {
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_operand->get_subtree_positive_tags());
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTMultiplication
@@ -690,7 +701,10 @@ public:
                       std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
               },
               m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
-        RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
+        RegexAST<NFAStateType>::set_subtree_positive_tags(
+                m_group_regex_ast->get_subtree_positive_tags()
+        );
+        RegexAST<NFAStateType>::add_subtree_positive_tags({m_tag.get()});
     }
 
     /**
-- 
2.43.0


From c8f03aa6cae8b1f1f7ece6c0c54727449d1d3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 43/46] fix: keep the line numbers of tokens in copies of log
 events

---
 src/log_surgeon/LogEvent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 8786ee5..b451ce8 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -102,7 +102,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
                 curr_pos,
                 m_buffer.data(),
                 buffer_size,
-                0,
+                token.m_line,
                 token.m_type_ids_ptr
         };
         m_log_output_buffer->set_curr_token(copied_token);
-- 
2.43.0


From b8a18158c1829e62b078486668a4827f795c8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 44/46] fix: report conflicts of an accept with a reduction

---
 src/log_surgeon/LALR1Parser.tpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index f38c663..c356fe3 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -479,11 +479,25 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
             }
             if (item.has_dot_at_end()) {
                 if (item.m_production == m_productions[m_root_production_id].get()) {
-                    Action action = true;
-                    item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd] = action;
+                    Action& action = item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd];
+                    if (std::holds_alternative<Production*>(action)) {
+                        std::string conflict_msg{};
+                        conflict_msg += "For symbol ";
+                        conflict_msg += this->m_lexer.m_id_symbol[(uint32_t)SymbolId::TokenEnd];
+                        conflict_msg += ", accepting causes accept-reduce conflict with reduction ";
+                        conflict_msg
+                                += this->m_lexer.m_id_symbol[std::get<Production*>(action)->m_head];
+                        conflict_msg += "-> {";
+                        for (uint32_t symbol : std::get<Production*>(action)->m_body) {
+                            conflict_msg += this->m_lexer.m_id_symbol[symbol] + ",";
+                        }
+                        conflict_msg += "}\n";
+                        throw std::runtime_error(conflict_msg);
+                    }
+                    action = true;
                 } else {
                     Action& action = item_set_ptr->m_actions[item.m_lookahead];
-                    if (!std::holds_alternative<bool>(action)) {
+                    if (!std::holds_alternative<bool>(action) || std::get<bool>(action)) {
                         std::string conflict_msg{};
                         conflict_msg += "For symbol ";
                         conflict_msg += this->m_lexer.m_id_symbol[item.m_lookahead];
@@ -498,6 +512,8 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
                             conflict_msg += "shift-reduce conflict with shift to ";
                             conflict_msg += std::to_string(std::get<ItemSet*>(action)->m_index);
                             conflict_msg += "\n";
+                        } else if (std::holds_alternative<bool>(action)) {
+                            conflict_msg += "accept-reduce conflict with the end of the input\n";
                         } else {
                             conflict_msg += "reduce-reduce conflict with reduction ";
                             conflict_msg
-- 
2.43.0


From 526c2fc30bf6954f509f143136b368da8418ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 45/46] fix: let threads parse schemas independently of each
 other

---
 src/log_surgeon/LALR1Parser.cpp  |  4 ++--
 src/log_surgeon/LALR1Parser.hpp  |  5 +++--
 src/log_surgeon/SchemaParser.cpp | 18 ------------------
 src/log_surgeon/SchemaParser.hpp | 19 ++++++++++++++++++-
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 7f7584e..f0c52ef 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,11 +1,11 @@
 #include "LALR1Parser.hpp"
 
 namespace log_surgeon {
-std::vector<MatchedSymbol> NonTerminal::m_all_children(cSizeOfAllChildren);
+thread_local std::vector<MatchedSymbol> NonTerminal::m_all_children(cSizeOfAllChildren);
 
 ParserAST::~ParserAST() = default;
 
-uint32_t NonTerminal::m_next_children_start = 0;
+thread_local uint32_t NonTerminal::m_next_children_start = 0;
 
 NonTerminal::NonTerminal(Production* p)
         : m_children_start(NonTerminal::m_next_children_start),
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index 5d6baf5..a69db8f 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -99,8 +99,9 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static std::vector<MatchedSymbol> m_all_children;
-    static uint32_t m_next_children_start;
+    // Per thread, such that threads can parse independently of each other
+    static thread_local std::vector<MatchedSymbol> m_all_children;
+    static thread_local uint32_t m_next_children_start;
     uint32_t m_children_start;
     Production* m_production;
     std::unique_ptr<ParserAST> m_ast;
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index dd93c02..e5afcc8 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -437,24 +437,6 @@ static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
 }
 
 void SchemaParser::add_lexical_rules() {
-    if (m_special_regex_characters.empty()) {
-        m_special_regex_characters.emplace('(', "Lparen");
-        m_special_regex_characters.emplace(')', "Rparen");
-        m_special_regex_characters.emplace('*', "Star");
-        m_special_regex_characters.emplace('+', "Plus");
-        m_special_regex_characters.emplace('-', "Dash");
-        m_special_regex_characters.emplace('.', "Dot");
-        m_special_regex_characters.emplace('[', "Lbracket");
-        m_special_regex_characters.emplace(']', "Rbracket");
-        m_special_regex_characters.emplace('\\', "Backslash");
-        m_special_regex_characters.emplace('^', "Hat");
-        m_special_regex_characters.emplace('{', "Lbrace");
-        m_special_regex_characters.emplace('}', "Rbrace");
-        m_special_regex_characters.emplace('|', "Vbar");
-        m_special_regex_characters.emplace('<', "Langle");
-        m_special_regex_characters.emplace('>', "Rangle");
-        m_special_regex_characters.emplace('?', "QuestionMark");
-    }
     for (auto const& [special_regex_char, special_regex_name] : m_special_regex_characters) {
         add_token(special_regex_name, special_regex_char);
     }
diff --git a/src/log_surgeon/SchemaParser.hpp b/src/log_surgeon/SchemaParser.hpp
index c508128..7f316f8 100644
--- a/src/log_surgeon/SchemaParser.hpp
+++ b/src/log_surgeon/SchemaParser.hpp
@@ -127,7 +127,24 @@ private:
      */
     auto generate_schema_ast(Reader& reader) -> std::unique_ptr<SchemaAST>;
 
-    static inline std::unordered_map<char, std::string> m_special_regex_characters;
+    static inline std::unordered_map<char, std::string> const m_special_regex_characters{
+            {'(', "Lparen"},
+            {')', "Rparen"},
+            {'*', "Star"},
+            {'+', "Plus"},
+            {'-', "Dash"},
+            {'.', "Dot"},
+            {'[', "Lbracket"},
+            {']', "Rbracket"},
+            {'\\', "Backslash"},
+            {'^', "Hat"},
+            {'{', "Lbrace"},
+            {'}', "Rbrace"},
+            {'|', "Vbar"},
+            {'<', "Langle"},
+            {'>', "Rangle"},
+            {'?', "QuestionMark"}
+    };
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From bd4b0137eda50da48f7499920a274416df0c3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:58 +0000
Subject: [PATCH 46/46] fix: report strings that no variable matches as
 uncaught in wildcard scans

---
 src/log_surgeon/Lexer.tpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 3b8eb9d..8369317 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -211,14 +211,14 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
             return err;
         }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && nullptr != state && state->is_accepting())
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
             m_match_pos = prev_byte_buf_pos;
             m_match_line = m_line;
         }
-        DFAStateType const* next = state->next(next_char);
+        DFAStateType const* next = nullptr == state ? nullptr : state->next(next_char);
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -231,7 +231,16 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
             }
         }
         if (input_buffer.log_fully_consumed() || next == nullptr) {
-            assert(input_buffer.log_fully_consumed());
+            // If no variable goes on with this character then all of the input is an uncaught string
+            while (false == input_buffer.log_fully_consumed()) {
+                if (ErrorCode err = input_buffer.get_next_character(next_char);
+                    ErrorCode::Success != err)
+                {
+                    m_asked_for_more_data = true;
+                    m_prev_state = nullptr;
+                    return err;
+                }
+            }
             if (!m_match || (m_match && m_match_pos != input_buffer.storage().pos())) {
                 token
                         = Token{m_last_match_pos,
-- 
2.43.0

