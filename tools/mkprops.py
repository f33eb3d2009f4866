#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': ['src/log_surgeon/' + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
            'mechanism': [{'name': n, 'where': 'src/log_surgeon/' + w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': hook,
        },
    })


NO = 'No repository test runs the log parser: the 22 unit tests cover the schema AST, one NFA serialization, tags, ' \
     'the prefix tree and the register handler. '

prop('C01', 'Parsing loses, invents and reorders no byte of the input',
     'For every schema and every byte stream, concatenating the texts of the log events in the order in which they '
     'are returned until the parser is done gives the stream, byte for byte. Within each event the texts of its tokens, '
     'in order, give the text of the event.',
     ['inputs', 'configurations', 'histories'],
     'every accepted schema, every byte stream (any bytes), with or without timestamps, any chunking of the reads',
     NO + 'Losslessness is a statement about every stream; a handful of samples misses the boundaries where bytes are '
     'dropped (wrap-around, first token, final partial token, rewinds).',
     ['Lexer.tpp', 'LogParser.cpp', 'LogEvent.cpp', 'Token.cpp'],
     [('Lexer::scan emits the gap before a match as static text', 'Lexer.tpp'),
      ('LogParser::parse splits a token at its newline', 'LogParser.cpp')],
     ['LogEventView::to_string', 'Token::to_string_view', 'ReaderParser::parse_next_event'],
     [('last match end', 'everything before it has been tokenized', 'Lexer'),
      ('start of next event', 'token held back for the next event', 'LogParser')])

prop('C02', 'How the input is buffered and chunked does not change the result',
     'The sequence of events, tokens and types returned for a byte stream depends only on the schema and the bytes: not on '
     'how many bytes each read of the Reader returns, not on where an event or token falls in the internal buffer, and not '
     'on how often the buffers wrap around or grow.',
     ['inputs', 'schedules', 'configurations'],
     'every stream, every partition of it into reads (including one byte at a time), every initial buffer size, '
     'events and tokens longer than the buffer',
     NO + 'The internal buffer holds 48000 bytes, so no small sample ever wraps or grows it; the failures need particular '
     'alignments of tokens, halves of the buffer and short reads.',
     ['ParserInputBuffer.cpp', 'Buffer.hpp', 'Lexer.tpp', 'ReaderParser.cpp', 'Token.cpp', 'LogParserOutputBuffer.cpp'],
     [('ParserInputBuffer::read, read_is_safe, get_next_character, increase_capacity', 'ParserInputBuffer.cpp'),
      ('Lexer::increase_buffer_capacity rebases positions', 'Lexer.tpp'),
      ('Token::to_string handles wrapped tokens', 'Token.cpp'),
      ('LogParserOutputBuffer::advance_to_next_token grows', 'LogParserOutputBuffer.cpp')],
     ['ReaderParser::parse_next_event', 'LogEventView', 'Token'],
     [('consumed position', 'bytes up to it may be overwritten', 'ParserInputBuffer'),
      ('half last read', 'which half of the ring was filled last', 'ParserInputBuffer')],
     'the initial size of the buffers (Buffer.hpp) is shrunk, so that small inputs wrap and grow them')

prop('C03', 'Log events start and end where the schema says',
     'A stream is split into log events as follows. While an event starts with a timestamp (a match of a timestamp rule at '
     'the start of the input or right after a newline) it ends only after the newline that precedes the next timestamp or at the '
     'end of the input; any other event ends after its first newline. A match of a timestamp rule anywhere else never starts an event.',
     ['inputs', 'configurations'],
     'every schema with any number of timestamp rules and every stream',
     NO + 'Segmentation depends on the interplay of timestamp candidates, variables that start a line and the state '
     'carried from one event to the next; every such combination is a different input.',
     ['LogParser.cpp', 'LogParser.hpp', 'Lexer.tpp'],
     [('LogParser::parse', 'LogParser.cpp'), ('LogParser::add_rules makes two rules of each timestamp', 'LogParser.cpp'),
      ('Lexer::prepend_start_of_file_char', 'Lexer.tpp')],
     ['ReaderParser::parse_next_event', 'LogEventView::to_string', 'LogEventView::get_timestamp'])

prop('C04', 'Tokens are the leftmost longest matches between delimiters',
     'Each token of an event is either a match of a rule (its preceding delimiter included) or static text. A match starts at '
     'the first delimiter (or the start of the input) from which some rule matches, and extends to the last position from which '
     'a delimiter or the end of the input follows and up to which a rule matches; the text between two matches is one static token.',
     ['inputs', 'configurations'],
     'every schema and every stream',
     NO + 'Longest match, backtracking after a failed longer candidate and skipping to the next delimiter differ only on '
     'inputs built against the particular rules.',
     ['Lexer.tpp', 'LogParser.cpp'],
     [('Lexer::scan', 'Lexer.tpp')],
     ['Token::to_string_view', 'Token::m_type_ids_ptr (static text or not)'])

prop('C05', 'A token is assigned every matching rule, in schema order',
     'The types of a token are exactly the names of the rules that match its text, in the order in which the rules appear in the '
     'schema; rules of the same name are alternatives of one variable. The first of them is the type under '
     'which the token is reported.',
     ['inputs', 'configurations'],
     'every schema (any order, overlap and repetition of rules, names that are predefined or not) and every stream',
     NO + 'Overlap and order of rules is a property of schemas that no test varies.',
     ['LogParser.cpp', 'Lexer.tpp', 'LexicalRule.hpp', 'finite_automata/RegexNFA.hpp', 'finite_automata/RegexDFAState.hpp'],
     [('Lexer::nfa_to_dfa collects the matching rules of a state', 'Lexer.tpp'), ('LogParser::add_rules', 'LogParser.cpp')],
     ['Token::m_type_ids_ptr', 'LogParser::get_id_symbol'])

prop('C06', 'The automaton built for a regular expression accepts its language',
     'For every regular expression built from literals, bracket expressions, wildcards, concatenation, alternation, bounded and '
     'unbounded repetition and captures, the deterministic automaton that is built for it accepts a string if and only if the '
     'string is in the language of the expression; for several expressions together, it reports exactly those that match.',
     ['inputs', 'programs'],
     'every expression tree and every byte string (each automaton is compared in all of its states)',
     'The one NFA test compares a serialization for one schema; the automaton itself is never run. Equality of languages '
     'is a statement about all strings.',
     ['finite_automata/RegexAST.hpp', 'finite_automata/RegexNFA.hpp', 'finite_automata/RegexNFAState.hpp',
      'finite_automata/RegexDFAState.hpp', 'finite_automata/RegexDFA.hpp', 'Lexer.tpp'],
     [('RegexAST*::add_to_nfa', 'finite_automata/RegexAST.hpp'), ('Lexer::nfa_to_dfa, epsilon_closure', 'Lexer.tpp'),
      ('RegexASTGroup::merge, complement', 'finite_automata/RegexAST.hpp')],
     ['RegexDFA::get_root', 'RegexDFAState::next', 'RegexDFAState::get_matching_variable_ids'])

prop('C07', 'A schema text means the rules that it spells out',
     'For every schema text in the documented syntax, parsing it yields its delimiters and its rules, in order, with their '
     'names and line numbers, and each pattern denotes the language that the documented regular expression syntax gives it '
     '(escapes, bracket expressions, ranges, negation, precedence of repetition, alternation and concatenation, captures). Comments and line-ending style do not matter, and '
     'reading the text from a file, from a string or rule by rule through the Schema class makes no difference.',
     ['inputs', 'programs'],
     'every schema text of the grammar',
     'The schema tests parse three one-line schemas and compare the node types.',
     ['SchemaParser.cpp', 'LALR1Parser.tpp', 'Schema.cpp', 'finite_automata/RegexAST.hpp', 'FileReader.cpp'],
     [('SchemaParser::add_productions and the semantic rules', 'SchemaParser.cpp'),
      ('LALR1Parser::generate, parse', 'LALR1Parser.tpp')],
     ['SchemaParser::try_schema_string', 'SchemaParser::try_schema_file', 'SchemaAST', 'LogParser (automaton)'])

prop('C08', 'Invalid schemas are rejected with an exception that says where',
     'For every text that is not a schema, parsing throws std::runtime_error and does nothing worse (no crash, no hang, no '
     'schema). For a syntax error the message gives the line and column of the first character at which the text stops being the '
     'beginning of a schema. A text with a reversed range, a repetition whose minimum exceeds its maximum or a delimiter that is not '
     'one character is rejected likewise.',
     ['inputs'],
     'every byte string offered as a schema',
     'No test feeds an invalid schema.',
     ['SchemaParser.cpp', 'LALR1Parser.tpp', 'Schema.cpp', 'finite_automata/RegexAST.hpp'],
     [('LALR1Parser::parse_advance, report_error', 'LALR1Parser.tpp'), ('checks in the semantic rules', 'SchemaParser.cpp')],
     ['SchemaParser::try_schema_string', 'std::runtime_error::what'])

prop('C09', 'No variable contains a delimiter',
     'A schema whose variable pattern can match a delimiter is rejected with an exception that names the variable, its line and the delimiter, and one without '
     'delimiters is rejected too; every other valid schema is accepted. Of several delimiter rules the last one counts. A wildcard in a variable matches every '
     'character but the delimiters, so that no variable token has a delimiter after its first character.',
     ['inputs', 'configurations', 'programs'],
     'every schema (any pattern, any delimiters, any position of the delimiters rule) and every stream',
     NO + 'No test builds a log parser.',
     ['LogParser.cpp', 'finite_automata/RegexAST.hpp', 'Lexer.tpp'],
     [('LogParser::add_rules', 'LogParser.cpp'), ('set_possible_inputs_to_true, remove_delimiters_from_wildcard', 'finite_automata/RegexAST.hpp'),
      ('Lexer::add_delimiters', 'Lexer.tpp')],
     ['LogParser constructor', 'Lexer::is_delimiter', 'tokens'])

prop('C10', 'Timestamp, variables and multi-line flag describe the event',
     'For every event, the timestamp is the text of its timestamp token and absent if it has none; looking up a '
     'variable yields the texts of exactly the tokens whose first type it is, in order of appearance; and the event is marked multi-line if and '
     'only if it starts with a timestamp and has a character after a newline.',
     ['inputs', 'histories'],
     'every schema, every stream, every event of it',
     NO,
     ['LogParser.cpp', 'LogEvent.cpp', 'LogEvent.hpp', 'LogParserOutputBuffer.cpp'],
     [('LogParser::generate_log_event_view_metadata', 'LogParser.cpp'), ('LogEventView::get_timestamp', 'LogEvent.cpp')],
     ['LogEventView::get_timestamp', 'LogEventView::get_variables', 'LogEventView::is_multiline'])

prop('C11', 'The logtype is the static text with variables replaced by names',
     'The logtype of an event is its text with the timestamp left out and every variable replaced by its name in angle brackets: the '
     'delimiter before a variable and all static text are kept, and not a character of a variable\'s value is. '
     'Two events that differ only in the values of their variables have the same logtype.',
     ['inputs', 'configurations'],
     'every schema, every stream, every event of it, with variables at the start of the input and of a line',
     NO,
     ['LogEvent.cpp', 'Token.cpp'],
     [('LogEventView::get_logtype', 'LogEvent.cpp'), ('Token::get_delimiter', 'Token.cpp')],
     ['LogEventView::get_logtype'])

prop('C12', 'A copied event is complete and independent of the parser',
     'A deep copy of an event (or of a copy) has the same timestamp, tokens, types, line numbers, variables, logtype, text and multi-line flag as its source, and keeps them '
     '(moved to another object, too) whatever the parser does and whatever happens to its buffers, its input or other copies afterwards.',
     ['inputs', 'histories'],
     'every event, every later history of parsing, resetting, copying and dropping',
     NO + 'Aliasing shows only after the parser has gone on to overwrite its buffers.',
     ['LogEvent.cpp', 'LogEvent.hpp', 'Token.cpp', 'LogParserOutputBuffer.cpp'],
     [('LogEvent::LogEvent', 'LogEvent.cpp')],
     ['LogEventView::deep_copy', 'LogEvent'])

prop('C13', 'A reset parser behaves like a new one',
     'After a reset, at whatever point of whatever previous input and with whatever outcome, a parser returns for the next '
     'input exactly what a newly constructed parser returns for it.',
     ['histories', 'inputs'],
     'every history of inputs, abandoned at any event, with grown buffers, errors or completion, for both parsers',
     NO + 'It quantifies over all previous histories.',
     ['ReaderParser.cpp', 'BufferParser.cpp', 'LogParser.cpp', 'Lexer.tpp', 'ParserInputBuffer.cpp', 'Buffer.hpp'],
     [('ReaderParser::reset_and_set_reader, BufferParser::reset', 'ReaderParser.cpp'), ('LogParser::reset', 'LogParser.cpp'),
      ('Lexer::reset', 'Lexer.tpp'), ('ParserInputBuffer::reset', 'ParserInputBuffer.cpp')],
     ['ReaderParser::reset_and_set_reader', 'BufferParser::reset', 'parse_next_event'])

prop('C14', 'BufferParser returns an event or says where to resume',
     'Given a buffer, BufferParser returns the next complete event and moves the offset to the start of the next one, or, if the end of the event '
     'cannot be told from the bytes in the buffer and more may come, reports that the buffer is out of bounds and leaves the '
     'offset at the start of the event. A caller that keeps the bytes from the offset on and supplies more (in any amounts) '
     'gets every byte of its input in exactly one event, and the events the specification gives for it.',
     ['inputs', 'schedules', 'histories'],
     'every stream, every capacity and refill schedule, resuming after success or out-of-bounds, at any offset in the buffer',
     NO + 'The protocol is between two parties over many calls.',
     ['BufferParser.cpp', 'LogParser.cpp', 'LogParser.hpp', 'ParserInputBuffer.cpp', 'Lexer.tpp'],
     [('BufferParser::parse_next_event', 'BufferParser.cpp'), ('ParserInputBuffer::set_storage', 'ParserInputBuffer.cpp'),
      ('LogParser::set_input_buffer', 'LogParser.hpp')],
     ['BufferParser::parse_next_event', 'offset', 'BufferParser::done'])

prop('C15', 'Parsing terminates and reports completion exactly at the end',
     'For every finite input, repeatedly asking for the next event completes after finitely many events, and the parser reports being done '
     'with the event that ends at the end of the input and not before. Every event but the last holds at least one character, and the last '
     'one does, too, unless the input is empty or the event before it ended with a newline.',
     ['inputs', 'histories'],
     'every schema and stream, both parsers, including empty input, input without a final newline and input of newlines only',
     NO,
     ['ReaderParser.cpp', 'BufferParser.cpp', 'LogParser.cpp', 'Lexer.tpp', 'ParserInputBuffer.cpp'],
     [('TokenEnd in LogParser::parse', 'LogParser.cpp'), ('ParserInputBuffer::get_next_character', 'ParserInputBuffer.cpp')],
     ['ReaderParser::done', 'BufferParser::done'])

prop('C16', 'A failing reader is reported and loses nothing',
     'If the Reader fails, the parse call in which it fails returns the reader\'s error code instead of an event. Calling again once the '
     'reader works continues where parsing stopped: the events returned over all calls are those of the same bytes read without failures.',
     ['fault_sequences', 'inputs', 'schedules'],
     'every stream, every sequence of reads with any of them failing any number of times, before, within and between events',
     NO + 'No test has a failing reader.',
     ['ReaderParser.cpp', 'ParserInputBuffer.cpp', 'LogParser.cpp', 'Lexer.tpp'],
     [('ReaderParser::parse_next_event', 'ReaderParser.cpp'), ('ParserInputBuffer::read', 'ParserInputBuffer.cpp')],
     ['ReaderParser::parse_next_event'])

prop('C17', 'Intersecting two automata yields the types that can coincide',
     'Intersecting the automaton of a schema with that of a search pattern yields exactly the identifiers of those rules of the schema for which '
     'some string is matched by both the rule and the pattern.',
     ['inputs', 'programs'],
     'every pair of rule sets',
     'An example program prints intersections; nothing checks them.',
     ['finite_automata/RegexDFA.tpp', 'finite_automata/RegexDFA.hpp', 'finite_automata/RegexDFAStatePair.hpp'],
     [('RegexDFA::get_intersect', 'finite_automata/RegexDFA.tpp'),
      ('RegexDFAStatePair', 'finite_automata/RegexDFAStatePair.hpp')],
     ['RegexDFA::get_intersect'])

prop('C18', 'The tagged NFA records which captures take part in a match',
     'For every expression with named captures, every accepting path of the NFA opens and closes exactly the captures that the '
     'corresponding way of matching enters, once per entry and around the text that it captures, and marks as unmatched those of '
     'the alternatives not taken; leaving the tags aside, the NFA accepts the language of the expression.',
     ['inputs', 'programs'],
     'every expression with captures nested in alternations and repetitions, every string',
     'The NFA test compares the serialization of one schema.',
     ['finite_automata/RegexAST.hpp', 'finite_automata/RegexNFA.hpp', 'finite_automata/RegexNFAState.hpp', 'finite_automata/TaggedTransition.hpp'],
     [('RegexASTCapture::add_to_nfa, add_to_nfa_with_negative_tags', 'finite_automata/RegexAST.hpp'),
      ('RegexNFA::serialize', 'finite_automata/RegexNFA.hpp')],
     ['RegexNFA::serialize'])

prop('C19', 'Registers keep the histories of positions assigned to them',
     'Along every history of operations, a register yields its positions latest first: those of the node it was created under, those '
     'appended to it, and after a copy those of the source. Appending to a register or copying into it leaves all others unchanged; setting '
     'one replaces its latest position in every history that shares it and nothing else; invalid indices are refused with an exception and '
     'change nothing.',
     ['histories'],
     'every history of adding, setting, appending, copying and reading registers and of inserting, setting and reading prefix tree nodes',
     'The tests run one history of each.',
     ['finite_automata/PrefixTree.hpp', 'finite_automata/PrefixTree.cpp', 'finite_automata/RegisterHandler.hpp'],
     [('PrefixTree', 'finite_automata/PrefixTree.cpp'), ('RegisterHandler', 'finite_automata/RegisterHandler.hpp')],
     ['RegisterHandler', 'PrefixTree'])

prop('C20', 'Building a schema in code keeps its rules in the given order',
     'A Schema built by adding variables one at a time holds exactly the variables added and those of the file it was loaded from, each parsed as it '
     'would be in a schema text, each at the priority position given or at the end for a priority of -1; (of a text with several variables the first one is added); adding a text that is not a schema or has no variable throws and changes nothing. '
     'The parser built from it behaves like that of the equivalent schema text.',
     ['histories', 'inputs'],
     'every sequence of additions with any priorities, starting empty or from a file',
     'The tests add one variable to an empty schema.',
     ['Schema.cpp', 'Schema.hpp', 'SchemaParser.cpp', 'SchemaParser.hpp'],
     [('Schema::add_variable', 'Schema.cpp'), ('SchemaAST::insert_schema_var, add_schema_var', 'SchemaParser.hpp')],
     ['Schema::release_schema_ast_ptr', 'ReaderParser'])

prop('C21', 'The interval tree finds and removes exactly the overlapping intervals',
     'Along every history of insertions and removals, the tree holds each inserted interval with its latest value until it is removed, in '
     'order; a lookup yields exactly the held intervals that overlap the query, and a removal yields and removes exactly those.',
     ['histories'],
     'every history of insert, find, pop, reset and list operations',
     'Nothing tests the interval tree (only automata over UTF-8 states use it).',
     ['finite_automata/UnicodeIntervalTree.hpp', 'finite_automata/UnicodeIntervalTree.tpp'],
     [('UnicodeIntervalTree', 'finite_automata/UnicodeIntervalTree.tpp')],
     ['UnicodeIntervalTree'])

prop('C22', 'FileReader delivers the bytes of a file once and in order',
     'Reading a file through FileReader, in any mixture of block reads and reads up to a delimiter, delivers its bytes once and in order and then the end of file; '
     'a file that does not exist is reported as such and reading without an open file as not initialized, and a reader can be '
     'closed and opened again.',
     ['histories', 'inputs'],
     'every file content and every sequence of open, read, read-to-delimiter and close',
     'Nothing tests FileReader.',
     ['FileReader.cpp', 'FileReader.hpp'],
     [('FileReader', 'FileReader.cpp')],
     ['FileReader'])

prop('C23', 'Reading ahead is bounded by the size of the events',
     'How far a parser has read beyond the end of an event when it returns it is bounded by the initial size of its buffer and '
     'the size of the longest event so far: on an endless stream of events of bounded size its memory stays bounded and its buffer stops growing.',
     ['inputs', 'schedules', 'histories'],
     'every stream, every buffer size, every chunking',
     NO + 'It is about streams much longer than the buffer.',
     ['ParserInputBuffer.cpp', 'ReaderParser.cpp', 'LogParser.cpp', 'LogParserOutputBuffer.cpp'],
     [('ParserInputBuffer::read_is_safe', 'ParserInputBuffer.cpp'), ('set_consumed_pos calls', 'LogParser.cpp')],
     ['Reader::read calls', 'ReaderParser::parse_next_event'],
     [('consumed position', 'bytes up to it may be overwritten', 'ParserInputBuffer')],
     'the initial size of the buffers (Buffer.hpp) is shrunk')

prop('C24', 'Tokens carry the number of the line they end on',
     'Each token that the parsers return carries the number of newlines of the input up to its end, whatever the lexer scanned beyond it '
     'and took back, through reads, resets and events; so do the tokens of copies of the event. (A newline that was cut off the first token of the '
     'next event may carry that token\'s number instead of its own.)',
     ['inputs', 'configurations', 'histories'],
     'every accepted schema, every byte stream, any chunking of the reads, parsers that were used before',
     NO + 'The number is wrong only after the lexer went back over a newline or carried a count over a reset.',
     ['Lexer.tpp', 'LogParser.cpp', 'LogEvent.cpp', 'Token.hpp'],
     [('Lexer::scan takes m_line back with the position', 'Lexer.tpp'), ('Lexer::reset', 'Lexer.tpp'), ('LogEvent::LogEvent', 'LogEvent.cpp')],
     ['Token::m_line'],
     [('current line', 'newlines scanned so far, taken back with the position', 'Lexer'),
      ('line of the last match', 'the line where the pending match ends', 'Lexer')])

prop('C25', 'A generated parser accepts exactly the sentences of its grammar',
     'For every grammar of tokens and productions added to an LALR1Parser: generating a parser succeeds if the grammar is SLR(1) and throws if it has an '
     'LALR(1) conflict (which includes every ambiguous grammar); the parser then accepts exactly the sentences, running the rules '
     'of the productions in the order of the bottom-up derivation, each with the tokens and values of its body in order, and refuses any '
     'other input at the first token with which no sentence can go on, naming that token and its position. A text that is several '
     'tokens counts as the first of them that can follow. Earlier parses, failed ones and ones in which a rule threw included, '
     'change nothing; a production given again has the rule given last.',
     ['inputs', 'configurations', 'histories'],
     'every grammar whose nonterminals all derive a word, every input, every sequence of parses (tokens shorter than half a buffer)',
     'The tests use the one grammar of the schema language, on a handful of schemas.',
     ['LALR1Parser.tpp', 'LALR1Parser.hpp', 'LALR1Parser.cpp'],
     [('LALR1Parser::generate_first_sets, generate_lr0_kernels, generate_lr1_item_sets', 'LALR1Parser.tpp'),
      ('LALR1Parser::generate_lalr1_action', 'LALR1Parser.tpp'), ('LALR1Parser::parse, parse_advance, parse_symbol', 'LALR1Parser.tpp'),
      ('LALR1Parser::report_error', 'LALR1Parser.tpp')],
     ['LALR1Parser::generate', 'LALR1Parser::parse', 'semantic rules'],
     [('parse stack', 'states and matches of what was shifted and not yet reduced', 'LALR1Parser'),
      ('children start', 'how many children slots are in use', 'NonTerminal')])

prop('C26', 'Parsers do not affect each other',
     'Of several parsers, each returns for its inputs exactly what it would return alone, whichever way their operations (building schemas and parsers, '
     'resetting, parsing) are interleaved: in turns in one thread, each in a thread of its own, or one parser reading what another returns.',
     ['schedules', 'histories', 'inputs'],
     'every set of parsers and schemas, every interleaving of their operations',
     'The tests use one object at a time; shared state shows only when two are in use at once.',
     ['LALR1Parser.hpp', 'LALR1Parser.cpp', 'SchemaParser.hpp', 'Lexer.hpp', 'Lexer.tpp', 'Buffer.hpp', 'LogParser.cpp', 'LogEvent.cpp', 'Token.cpp'],
     [('NonTerminal::m_all_children', 'LALR1Parser.cpp'), ('Buffer', 'Buffer.hpp'), ('Lexer', 'Lexer.hpp')],
     ['ReaderParser', 'BufferParser', 'Schema', 'Reader::read callbacks'],
     [('children of nonterminals', 'shared by all parsers of grammars of a thread', 'NonTerminal')])

prop('C27', 'Names and ids of variables correspond one to one',
     'For every accepted schema, each of its variables (but `timestamp`, which stands for firstTimestamp and newLineTimestamp) has an id '
     'that get_variable_id yields for its name, that get_id_symbol leads back to that name, that no other name has and that the types of tokens use, '
     'unchanged as long as the parser lives; the library\'s own symbols have the ids of SymbolId; every other name has none.',
     ['inputs', 'histories', 'configurations'],
     'every schema (any number of variables, names alike or repeated), every name, at any point of any history of parses and resets',
     NO + 'It quantifies over all schemas and names.',
     ['Parser.tpp', 'LogParser.cpp', 'LogParser.hpp', 'ReaderParser.hpp', 'BufferParser.hpp'],
     [('Parser::add_rule', 'Parser.tpp'), ('LogParser::add_rules', 'LogParser.cpp'), ('LogParser::get_symbol_id', 'LogParser.cpp')],
     ['ReaderParser::get_variable_id', 'BufferParser::get_variable_id', 'LogParser::get_id_symbol', 'Token::m_type_ids_ptr'])

prop('C28', 'A lexer used on its own cuts texts and judges words exactly',
     'A ByteLexer with rules that match no empty text cuts whatever a ParserInputBuffer holds into tokens that make up the text. Without delimiters they are, '
     'one after the other, the longest prefixes of what remains that some rule matches; from where there is none, the rest is one uncaught string. With '
     'delimiters (only as the first byte of a rule) a token must be followed by one or by the end (a newline alone need not be), and may start at the text\'s start, after a token or at a '
     'delimiter: a word without delimiters is a variable if a rule matches all of it. Its types are the ids of all rules that match it, in the order added. '
     'scan_with_wildcard reports a word before `*` as the variable it is if it and each of its continuations without delimiters match some rule, before `?` '
     'if it and it with any one byte more do, and as uncaught otherwise. All this whatever the sizes of buffers and reads, and, after resets, whatever was scanned before.',
     ['inputs', 'histories', 'configurations'],
     'every set of rules and delimiters, every text, every buffer size and read size, every history of texts scanned completely or in part',
     NO + 'No test scans with a lexer that is not a parser\'s, or with wildcards.',
     ['Lexer.hpp', 'Lexer.tpp', 'ParserInputBuffer.cpp', 'ParserInputBuffer.hpp', 'finite_automata/RegexDFA.hpp'],
     [('Lexer::scan', 'Lexer.tpp'), ('Lexer::scan_with_wildcard', 'Lexer.tpp'), ('Lexer::reset', 'Lexer.tpp'), ('ParserInputBuffer::reset', 'ParserInputBuffer.cpp')],
     ['Lexer::add_rule', 'Lexer::add_delimiters', 'Lexer::generate', 'Lexer::scan', 'Lexer::scan_with_wildcard', 'ParserInputBuffer::read_if_safe'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
