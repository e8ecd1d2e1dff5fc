"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
S = 'src/zope/index/'
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': [S + f for f in files],
                    'state': [dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                    'mechanism': [dict(name=n, where=S + w) for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})

prop('F01', 'Field index: range queries return exactly the documents in range',
 'After any sequence of index_doc, unindex_doc and clear calls, FieldIndex.apply((lo, hi)) returns exactly the ids of the documents that are currently indexed with a latest value v satisfying lo <= v <= hi, where None for either end leaves that end open. '
 'Each id appears once, whatever values or ids other documents have. Anything but a two-element tuple is rejected with TypeError.',
 ['histories', 'inputs'],
 'every history of index/reindex/unindex/clear over any docids and any mutually orderable values, and every query range',
 'The tests index one fixed list of ten values and query a handful of ranges; reindexing is sampled once.',
 ['field/index.py'], [('FieldIndex.index_doc/unindex_doc keep forward and reverse index in step', 'field/index.py'), ('FieldIndex.apply', 'field/index.py')],
 ['FieldIndex.apply'], [('_fwd_index', 'value -> docids', 'field/index.py'), ('_rev_index', 'docid -> value', 'field/index.py')])

prop('F02', 'Field index: statistics are exact and removal leaves no trace',
 'After any sequence of index_doc, unindex_doc and clear calls, documentCount() is the number of distinct documents currently indexed and wordCount() the number of distinct values those documents currently have. '
 'Unindexing an id that is not indexed changes nothing, unindexing an indexed id removes it from every later query and sort, and clear() leaves an index that behaves like a new one.',
 ['histories', 'inputs'], 'every history of index/reindex/unindex/clear, including repeated and unknown ids',
 'The tests check the counters after a few fixed calls; drift shows only after particular reindex/unindex sequences with shared values.',
 ['field/index.py'], [('Length counter and empty-set removal in index_doc/unindex_doc', 'field/index.py')],
 ['FieldIndex.documentCount', 'FieldIndex.wordCount', 'FieldIndex.apply', 'FieldIndex.sort'],
 [('_num_docs', 'number of indexed documents', 'field/index.py')])

prop('F03', 'Field index: sort returns the indexed ids, ordered by value, limited',
 'FieldIndex.sort(docids, reverse, limit) yields each requested id that is indexed exactly once and no other id, in non-decreasing order of its current value (non-increasing with reverse=True), whatever orderable type the values have. '
 'With limit=n it yields min(n, number of requested indexed ids) ids, and the values of these are the first ones of the fully sorted sequence; a limit below 1 raises ValueError. '
 'The answer does not depend on which internal sorting strategy the relative sizes select (the order among documents with equal values is not specified).',
 ['histories', 'inputs'], 'every set of indexed values (with ties), every requested id collection including unindexed ids and duplicates, both directions, every limit',
 'The tests force each of the three algorithms on one fixed distinct-valued example; ties, unindexed ids and boundary limits are hardly combined.',
 ['field/sorting.py'], [('SortingIndexMixin.sort: lazy, n-best and full strategies', 'field/sorting.py')],
 ['FieldIndex.sort'])

prop('K01', 'Keyword index: and/or searches return exactly the matching documents',
 "After any sequence of index_doc, unindex_doc and clear calls, KeywordIndex.search/apply with operator 'and' (the default) returns exactly the documents whose current keywords include every queried keyword, and with 'or' exactly those whose current keywords include at least one; an empty query matches nothing. "
 'A single string is a one-keyword query, apply takes a plain query or a {query, operator} dictionary, and any other operator raises TypeError.',
 ['histories', 'inputs'], 'every history of index/reindex/unindex/clear with any keyword sets (including empty ones), and every query',
 'The tests use fixed three- or four-document corpora; the overlap patterns between old and new keyword sets on reindexing are barely sampled.',
 ['keyword/index.py'], [('KeywordIndex.index_doc difference-based update', 'keyword/index.py'), ('KeywordIndex.search', 'keyword/index.py')],
 ['KeywordIndex.search', 'KeywordIndex.apply'], [('_fwd_index', 'keyword -> docids', 'keyword/index.py'), ('_rev_index', 'docid -> keywords', 'keyword/index.py')])

prop('K02', 'Keyword index: document and keyword bookkeeping is exact',
 'After any sequence of index_doc, unindex_doc and clear calls, has_doc(d) is true exactly when the keywords last given for d (after normalization) were non-empty and d was not unindexed or cleared since; documentCount() counts those documents and wordCount() the distinct keywords they currently have. '
 'This holds for any normalize() a subclass supplies, including one that merges or drops keywords; unindexing an unknown id changes nothing.',
 ['histories', 'inputs'], 'every history, every keyword sequence, every normalization',
 'Counters are tested on a few fixed calls; normalizations that drop keywords are never used.',
 ['keyword/index.py'], [('Length counter, _insert_reverse, unindex_doc', 'keyword/index.py')],
 ['KeywordIndex.has_doc', 'KeywordIndex.documentCount', 'KeywordIndex.wordCount'])

prop('K03', 'Keyword index: storage thresholds and optimize() never change answers',
 'Whatever tree_threshold is, whenever it is changed and whenever optimize() is called, every search result, has_doc, documentCount and wordCount of a KeywordIndex is the same as it would be with the default settings and no optimize().',
 ['histories', 'configurations'], 'every history interleaved with threshold changes and optimize() calls, on both sides of every threshold',
 'The tests cross the threshold once upwards and call optimize on one index.',
 ['keyword/index.py'], [('_insert_forward conversion to TreeSet', 'keyword/index.py'), ('KeywordIndex.optimize', 'keyword/index.py')],
 ['KeywordIndex.search', 'KeywordIndex.optimize'])

prop('K04', 'Case-insensitive keyword index folds documents and queries alike',
 'In a CaseInsensitiveKeywordIndex a document matches a keyword query exactly if one of its keywords equals the queried keyword after lower-casing both, for string and sequence queries and for both operators. '
 'Keywords of a document that differ only in case count as one keyword.',
 ['inputs', 'histories'], 'every keyword string and query string',
 'The tests use two or three ASCII keywords.',
 ['keyword/index.py'], [('CaseInsensitiveKeywordIndex.normalize applied in index_doc and search', 'keyword/index.py')],
 ['CaseInsensitiveKeywordIndex.search', 'CaseInsensitiveKeywordIndex.index_doc'])

prop('T01', 'Topic index: searches combine current filter membership exactly',
 "After any sequence of addFilter, delFilter, index_doc, reindexing, unindex_doc, clearFilters and clear calls, searching registered filter ids returns exactly the documents that all ('and', the default) or any ('or') of these filters currently contain; a query that names no registered filter matches nothing. "
 'A Python-expression filter contains a document exactly if, the last time the document was indexed since the filter was added (and not unindexed or cleared after), the expression it had then evaluated true for it; an expression that raises counts as false.',
 ['histories', 'inputs'], 'every history over any set of filters and documents whose expressions may be true, false or raising at each indexing',
 'The tests index each document once per filter; a document that stops matching on reindexing is never tried.',
 ['topic/index.py', 'topic/filter.py'], [('TopicIndex.search', 'topic/index.py'), ('PythonFilteredSet.index_doc', 'topic/filter.py')],
 ['TopicIndex.search', 'TopicIndex.apply', 'PythonFilteredSet.getIds'], [('_ids', 'docids in the filter', 'topic/filter.py')])

prop('U01', 'Queries change neither the index nor the query object',
 'apply, search and sort of the field, keyword, topic and text indexes, and parsing a text query, leave the index and the lexicon unchanged: repeating a query gives an equal answer, counters and the answers of other queries stay as they were, and no lexicon word is created. '
 'A query object, dictionary or document collection passed by the caller is not modified.',
 ['histories', 'inputs'], 'every index state and every pair of a query followed by any other observation',
 'The tests build a fresh query per call and rarely query twice; aliasing between results, queries and index internals is not observed.',
 ['keyword/index.py', 'topic/index.py', 'field/index.py', 'field/sorting.py', 'text/textindex.py', 'text/setops.py'],
 [('copying/neutral set operations in search and apply', 'text/setops.py'), ('TextIndex.apply normalizes a fresh result', 'text/textindex.py')],
 ['*.apply', '*.search', 'FieldIndex.sort'])

prop('L01', 'Lexicon: words and word ids correspond one to one, for good',
 'Over any sequence of sourceToWordIds calls the lexicon gives every distinct word one id, different from the id of every other word, never 0, and never changed afterwards; get_word(get_wid(w)) == w for every known word and wordCount() is the number of known words. '
 'Query-side calls (termToWordIds, parseTerms, globToWordIds, get_wid) create no word, and give 0 (get_wid, termToWordIds) or nothing (globToWordIds) for unknown words; the returned ids are in text order, one per word.',
 ['histories', 'inputs'], 'every sequence of source texts and queries over any words, from any lexicon state',
 'The tests process a handful of fixed sentences.',
 ['text/lexicon.py'], [('Lexicon._getWordIdCreate/_new_wid', 'text/lexicon.py')],
 ['Lexicon.sourceToWordIds', 'Lexicon.termToWordIds', 'Lexicon.get_word', 'Lexicon.get_wid', 'Lexicon.wordCount'],
 [('_wids', 'word -> id', 'text/lexicon.py'), ('_words', 'id -> word', 'text/lexicon.py')])

prop('L02', 'Lexicon: glob patterns match exactly the words a shell would match',
 'globToWordIds(pattern) returns exactly the ids of the lexicon words that match the whole pattern, where * stands for any run of characters (also an empty one), ? for exactly one character, and every other character for itself, each id once. '
 'A pattern that begins with * or ? raises QueryError; a pattern without wildcards finds exactly the equal word.',
 ['inputs'], 'every pattern and every set of lexicon words, including characters that mean something in regular expressions',
 'The tests try four or five patterns over plain ASCII words.',
 ['text/lexicon.py'], [('Lexicon.globToWordIds: prefix range scan plus compiled pattern', 'text/lexicon.py')],
 ['Lexicon.globToWordIds'])

prop('L03', 'Text pipeline: splitters, case folding and stop words treat every text right',
 'Splitter and HTMLWordSplitter return, in order, exactly the maximal runs of word characters of the given texts, the HTML splitter after lower-casing and after removing tags and named entities (text on two sides of a removed tag never joins); in their glob mode a run that began with a word character may also contain * and ?. '
 'CaseNormalizer lower-cases every word; the stop word removers drop exactly their stop words (and, for the single-character variant, words of one character below chr(255)) and keep all others in order.',
 ['inputs'], 'every text',
 'The tests run a few fixed sentences through each pipeline element.',
 ['text/lexicon.py', 'text/htmlsplitter.py', 'text/stopdict.py'], [('regular expressions of Splitter and HTMLWordSplitter', 'text/htmlsplitter.py'), ('StopWordRemover.process', 'text/lexicon.py')],
 ['Splitter.process', 'Splitter.processGlob', 'HTMLWordSplitter.process', 'HTMLWordSplitter.processGlob', 'StopWordRemover.process', 'CaseNormalizer.process'])

prop('W01', 'Word id coding: encode/decode round-trips every list of ids',
 'decode(encode(wids)) == wids for every list of integers from 0 up to 2**28-1. '
 'The encoding of a list is the concatenation of the encodings of its elements; only the first character of an element is in the range 0x80-0xFF, all others are below 0x80, and smaller ids never take more characters than larger ones.',
 ['inputs'], 'every list of ids below 2**28',
 'The tests try random ids and a few boundaries; a defect at one boundary or one bit pattern is easily missed.',
 ['text/widcode.py'], [('encode/_encode', 'text/widcode.py'), ('decode/_decode and the static tables', 'text/widcode.py')],
 ['widcode.encode', 'widcode.decode'])

prop('W02', 'Phrase search finds exactly the documents with the consecutive words',
 'search_phrase(phrase) of an Okapi or cosine index returns exactly the documents in whose word sequence (as indexed) the words of the phrase occur consecutively and in order, whatever ids the words have; a phrase containing a word no document has matches nothing. '
 'The score of a match is the sum of the scores search gives that document for each word of the phrase.',
 ['inputs', 'histories'], 'every set of documents, every phrase, every assignment of word ids',
 'The tests use lexicons of a dozen words, whose ids all have one-character codes.',
 ['text/baseindex.py', 'text/widcode.py'], [('BaseIndex.search_phrase: substring search in the encoded id list', 'text/baseindex.py')],
 ['BaseIndex.search_phrase', 'TextIndex.apply'], [('_docwords', 'docid -> encoded id list', 'text/baseindex.py')])

prop('X01', 'Text index: any history answers like a fresh index of the final documents',
 'After any sequence of index_doc, reindexing, unindex_doc and clear calls, an Okapi or cosine text index gives the same documentCount, wordCount, has_doc, get_words and the same matching documents and scores for every search as an index into which only the current documents were put once. '
 'documentCount is the number of current documents, wordCount the number of distinct words in them, get_words(d) the word ids of the current text of d in order, and index_doc returns their number.',
 ['histories', 'inputs'], 'every history over any documents and any texts, on both sides of the internal dictionary-to-tree conversion',
 'The tests reindex one or two fixed documents and compare few counters; clear followed by reuse is not checked on scores.',
 ['text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py', 'text/textindex.py'],
 [('BaseIndex._reindex_doc/_add_wordinfo/_mass_add_wordinfo/_del_wordinfo', 'text/baseindex.py'), ('OkapiIndex._change_doc_len', 'text/okapiindex.py')],
 ['BaseIndex.search', 'BaseIndex.documentCount', 'BaseIndex.wordCount', 'BaseIndex.has_doc', 'BaseIndex.get_words'],
 [('_wordinfo', 'wid -> docid -> weight', 'text/baseindex.py'), ('_docweight', 'docid -> document weight', 'text/baseindex.py'), ('_totaldoclen', 'sum of document lengths', 'text/okapiindex.py')])

prop('X02', 'Okapi scores follow the documented BM25 formula',
 'The score OkapiIndex.search gives document D for a one-word term t is TF(D,t)*IDF(t) with TF = f*(k1+1)/(f + k1*((1-b) + b*len(D)/mean_len)), IDF = log(1+N/f(t)), k1=1.2, b=0.75, where f counts t in D, len(D) and mean_len count words of the current documents, N is the number of documents and f(t) of those containing t (up to single-precision rounding). '
 'A term consisting of several words scores the sum over its words, and only documents containing at least one of them are returned.',
 ['inputs', 'histories'], 'every frequency, document length, collection size and document frequency',
 'The tests compare a few scores of one corpus with the formula.',
 ['text/okapiindex.py', 'text/baseindex.py'], [('OkapiIndex._python_search_wids/_c_search_wids', 'text/okapiindex.py'), ('inverse_doc_frequency', 'text/baseindex.py')],
 ['OkapiIndex.search'])

prop('X03', 'Cosine scores follow the documented cosine formula',
 'The score CosineIndex.search gives document D for a one-word term t is w(D,t)/W(D)*log(1+N/f(t)) with w(D,t) = 1+log f(D,t) and W(D) the Euclidean norm of w(D,.) over the distinct words of D (up to single-precision rounding), so the weights of the words of a document have norm 1. '
 'A term of several words scores the sum over its words.',
 ['inputs', 'histories'], 'every frequency vector, collection size and document frequency',
 'The tests compare one corpus with precomputed numbers.',
 ['text/cosineindex.py', 'text/baseindex.py'], [('CosineIndex._get_frequencies/_search_wids', 'text/cosineindex.py'), ('doc_term_weight', 'text/cosineindex.py')],
 ['CosineIndex.search'])

prop('X04', 'query_weight bounds scores, so text results lie between 0 and 1',
 'For every query without glob terms and every document it matches, 0 < score <= query_weight(terms of the query) in both the Okapi and the cosine index, also when words are repeated in the query or in a phrase, up to single-precision rounding. '
 'Hence TextIndex.apply, which divides scores by that weight, returns scores between 0 and 1 for such queries, with the same documents in the same order of relevance as the undivided scores.',
 ['inputs', 'histories'], 'every query without globs (with repetitions), every document collection',
 'The tests look at a few fixed scores; that the weight is an upper bound is never checked.',
 ['text/cosineindex.py', 'text/okapiindex.py', 'text/textindex.py'], [('query_weight', 'text/cosineindex.py'), ('query_weight', 'text/okapiindex.py'), ('TextIndex.apply', 'text/textindex.py')],
 ['TextIndex.apply', 'query_weight'])

prop('X05', 'The C scoring loop equals the Python one and leaks no reference',
 'For every list of (docid, frequency) pairs (frequencies of 1 or more), document lengths, idf and mean length above 0, the C function okascore.score stores for every listed docid the same score the pure-Python scoring loop computes, and touches no other docid. '
 'On every path, including failing calls into the interpreter, it keeps reference counts balanced, returns None on success, and otherwise returns an error with a proper exception set (a call with wrong arguments never ends in a SystemError or a crash).',
 ['inputs', 'fault_sequences'], 'every input up to the bound, every success/failure combination of the interpreter calls it makes',
 'One test calls the C function on one input; failing interpreter calls never happen in the tests.',
 ['text/okascore.c', 'text/okapiindex.py'], [('score()', 'text/okascore.c')],
 ['okascore.score', 'OkapiIndex.search'])

prop('S01', 'Weighted set operations are pointwise and leave their inputs alone',
 'mass_weightedUnion of a list of (mapping, weight) pairs maps every key of any mapping to the sum of weight*value over the mappings containing it; mass_weightedIntersection does so for exactly the keys common to all mappings (ignoring None mappings). '
 'An empty list gives an empty mapping, the order of the list does not matter, and no input mapping is modified.',
 ['inputs'], 'every list of weighted mappings',
 'The tests use up to five small fixed mappings.',
 ['text/setops.py', 'nbest.py'], [('mass_weightedUnion pairwise merging through NBest', 'text/setops.py'), ('mass_weightedIntersection', 'text/setops.py')],
 ['setops.mass_weightedUnion', 'setops.mass_weightedIntersection'])

prop('N01', 'NBest remembers exactly the N best-scoring items',
 'After any sequence of add and addmany calls, getbest() lists min(N, number of items added) (item, score) pairs in non-increasing order of score, each an added pair, and no left-out item had a higher score than a listed one; len() is their number and capacity() is N. After a pop, adding goes on from the pairs still listed (an item that was dropped earlier does not come back). '
 'pop_smallest() removes and returns a pair with the lowest score among those listed and raises IndexError when empty; N < 1 is rejected with ValueError.',
 ['histories', 'inputs'], 'every sequence of adds and pops with any scores, including equal ones, and every capacity',
 'The tests add two fixed sequences, one of them distinct-valued.',
 ['nbest.py'], [('NBest.addmany: bisect insertion, overflow removal', 'nbest.py')],
 ['NBest.getbest', 'NBest.pop_smallest', 'NBest.__len__'])

prop('Q01', 'Query parser: every query means what the documented grammar says',
 'For every query string the parser either raises ParseError or returns a tree that selects, for any assignment of matching documents to the words, phrases and globs of the query, the documents the grammar prescribes: OR binds weakest, then AND and NOT (NOT applies to the following term), juxtaposed atoms are and-ed, a leading hyphen negates an atom, parentheses group, quotes and inner punctuation make phrases, and operators are case-insensitive. '
 'Terms with only stop words drop out; terms() lists exactly the positive terms.',
 ['inputs'], 'every query string',
 'The tests list some sixty short queries.',
 ['text/queryparser.py', 'text/parsetree.py'], [('tokenizer and recursive descent parser', 'text/queryparser.py')],
 ['QueryParser.parseQuery', 'IQueryParseTree.terms'])

prop('Q02', 'Query parser: only ParseError escapes, and ignored terms are reported',
 'For every string parseQuery terminates and either returns a tree containing no NOT outside an AND and at least one positive term in every AND, so that executing it never raises, or raises ParseError, in particular when no positive non-stop-word term remains; no other exception escapes. '
 'getIgnored and parseQueryEx list exactly the terms dropped as stop words in the most recent parse, in order, and the parser can be reused.',
 ['inputs', 'histories'], 'every string, including unbalanced quotes and parentheses, and sequences of parses on one parser',
 'The tests list some twenty malformed queries.',
 ['text/queryparser.py', 'text/parsetree.py'], [('_require/_check/_parse*', 'text/queryparser.py')],
 ['QueryParser.parseQuery', 'QueryParser.getIgnored', 'QueryParser.parseQueryEx'])

prop('E01', 'Text queries: boolean execution selects and scores exactly right',
 'Executing a query tree selects a document exactly if it satisfies the boolean expression: AND needs every positive operand and none of the negated ones, OR at least one operand; operands whose words are all stop words (the index answers None) are left out. '
 'The score is the sum of the operand scores of the positive operands that contain the document, and negated operands never contribute.',
 ['inputs', 'histories'], 'every tree shape, every assignment of matching documents and scores to its leaves',
 'The tests execute about a dozen trees with fixed stub results.',
 ['text/parsetree.py', 'text/setops.py', 'text/textindex.py'], [('AndNode/OrNode.executeQuery', 'text/parsetree.py')],
 ['IQueryParseTree.executeQuery', 'TextIndex.apply'])

prop('G01', 'Text index: queries find exactly the documents whose current text satisfies them',
 'After any sequence of index_doc, reindexing, unindex_doc, clear and queries on a TextIndex with its lexicon (made by any combination of the constructor arguments; with or without case folding and stop word removal), apply(query) returns exactly the ids of the documents whose latest text satisfies the query: '
 'words, "phrases" and hyphenated terms occur in it (consecutively), patterns like w* and w? match one of its words, combined by AND, OR, NOT, parentheses and -word as documented, after both text and query went through the pipeline (so case and stop words do not matter where the pipeline removes them). All scores are positive. '
 'documentCount() is the number of documents indexed and wordCount() the number of distinct words in their texts. Queries that are not of the grammar or have stop words only raise ParseError. (Phrases with wildcards are outside the claim.)',
 ['histories', 'inputs', 'configurations'], 'every history of index/reindex/unindex/clear and queries, every text, every query, every way to make the index',
 'The tests of TextIndex run a few fixed queries on a fixed set of texts; lexicon, parser, parse tree and index are otherwise tested apart.',
 ['text/textindex.py', 'text/lexicon.py', 'text/queryparser.py', 'text/parsetree.py', 'text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py', 'text/setops.py', 'text/widcode.py'],
 [('TextIndex.apply: parse, execute, scale', 'text/textindex.py'), ('choice of lexicon and index in the constructor', 'text/textindex.py')],
 ['TextIndex.apply', 'TextIndex.documentCount', 'TextIndex.wordCount'])

prop('M01', 'Indexes stored without counters are upgraded to exact counters',
 'An Okapi or cosine index that an older version stored without its documentCount and wordCount counters, or (Okapi) with a plain number as total document length, accepts all calls: '
 'after a new document has been indexed, or a document unindexed, documentCount() is the number of documents, and after a new document has been indexed, or a word was added or lost, wordCount() is the number of distinct words; with both upgraded, all results, scores and query weights are those of a fresh index of the same documents. '
 'A lexicon without counter always reports the number of its words, keeps the ids of known words and gives new words new ids. All this is kept when the index is stored and loaded again.',
 ['histories', 'configurations'], 'every history of index/reindex/unindex/clear after the upgrade, every combination of missing counters',
 'The tests delete the counters once per method and make one call; combinations and what later calls, scores and a reload make of it are not tested.',
 ['text/baseindex.py', 'text/okapiindex.py', 'text/lexicon.py'],
 [('except AttributeError: upgrade to Length', 'text/baseindex.py'), ('_change_doc_len', 'text/okapiindex.py'), ('sourceToWordIds', 'text/lexicon.py')],
 ['BaseIndex.documentCount', 'BaseIndex.wordCount', 'BaseIndex.search', 'Lexicon.wordCount'])

prop('R01', 'Rice coding round-trips every list of positive integers',
 'For every m from 0 to 16 and every list of integers >= 1, encode(m, l).tolist() == l and len() is the number of elements; the bits read back from the byte string are those appended, and the unused trailing bits are zero. '
 'Values below 1 are rejected with ValueError and leave the code unchanged, as are values of m outside 0..16. A pickled and unpickled code has the same m and bits, and goes on as the original when values are appended (its length, as the tests fix, is not kept).',
 ['inputs', 'histories'], 'every list of positive integers, every m',
 'The tests draw random lists for a few m; m=0 and boundary values are not tried.',
 ['text/ricecode.py'], [('RiceCode.append/tolist', 'text/ricecode.py'), ('BitArray', 'text/ricecode.py')],
 ['ricecode.encode', 'RiceCode.tolist', 'RiceCode.tostring'])

prop('R02', 'Delta coding round-trips every strictly increasing list',
 'For every non-empty strictly increasing list of integers, decode_deltas(*encode_deltas(l)) == l.',
 ['inputs'], 'every non-empty strictly increasing list of integers',
 'The tests only use consecutive integers, whose differences are all one.',
 ['text/ricecode.py'], [('encode_deltas/decode_deltas', 'text/ricecode.py')],
 ['ricecode.encode_deltas', 'ricecode.decode_deltas'])

prop('D01', 'Durability: what was indexed and committed is what a new session sees',
 'If an index (field, keyword, topic or text) is stored in a ZODB, then after any sequence of index_doc, reindexing, unindex_doc, clear, filter and optimize calls, with commits in between, a session that loads the committed state afresh observes the same query results and counters as the session that made the changes. '
 'No change is lost because it was made inside a mutable object the persistence machinery was not told about.',
 ['histories', 'crash_points'], 'every history with a commit and reload at any point',
 'The tests never commit; all their indexes live in memory only.',
 ['text/baseindex.py', 'topic/index.py', 'topic/filter.py', 'keyword/index.py', 'field/index.py', 'text/lexicon.py'],
 [('reassignment of mutated values ("not redundant: Persistency!")', 'text/baseindex.py'), ('TopicIndex.clearFilters', 'topic/index.py')],
 ['*.apply', '*.search', '*.documentCount'])

prop('D02', 'An aborted transaction leaves no trace in the index',
 'If a transaction that changed an index (field, keyword, topic or text) or a lexicon stored in a ZODB is aborted, then all query results, scores, word ids and counters seen in the same session are again those after the last commit, whatever was asked before the abort. '
 'Doing the same calls again then gives the answers they gave the first time, and once committed a new session gives these answers too.',
 ['histories', 'crash_points'], 'every history of index_doc, reindexing, unindex_doc, clear, filter, threshold and optimize calls, with a commit after any prefix and an abort after the rest',
 'The tests never abort a transaction; their indexes live in memory only. Anything remembered outside what the persistence machinery rolls back shows only after an abort.',
 ['text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py', 'text/lexicon.py', 'topic/index.py', 'topic/filter.py', 'keyword/index.py', 'field/index.py'],
 [('all state is in persistent objects that are flagged as changed', 'text/baseindex.py'), ('BTrees.Length counters', 'text/lexicon.py')],
 ['*.apply', '*.search', '*.documentCount', 'Lexicon.termToWordIds'])

prop('B01', 'Document ids: the whole range of the BTree family works, results have its type',
 'Every index built with family32 works with every id from -2**31 to 2**31-1, and one built with family64 with every id from -2**63 to 2**63-1, for indexing, reindexing, unindexing, querying and sorting; ids that are equal modulo 2**32 are different documents. '
 'Query results are sets or mappings of the family of the index (so results of different indexes can be combined), and indexing a document (with some content to store) under an id outside the range raises TypeError, OverflowError or ValueError without its being stored as another id, and later queries are answered as if it had not been tried.',
 ['inputs', 'configurations'], 'every id of either family, both families, every kind of index',
 'The tests use small ids; family64 is only constructed, never used with large ids.',
 ['field/index.py', 'field/sorting.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py', 'text/setops.py', 'text/parsetree.py'],
 [('self.family used for every docid container', 'field/index.py')],
 ['*.apply', '*.search', 'FieldIndex.sort'])

prop('A01', 'A call that raises leaves the index as it was',
 'If index_doc or unindex_doc of a field, keyword, topic, Okapi, cosine or text index raises (a docid outside the range of the family; a value, or keywords, that do not compare with those indexed; something that is not a text; an error raised by normalize(), the lexicon or an element of its pipeline), for a new or a known document, then documentCount, wordCount, all query results and their scores are as if the call had not been made, and all later calls work as if it had not been made. '
 'In the same way Lexicon.sourceToWordIds(text), when the pipeline or the text raises, adds no words. (The lexicon may keep the words of a text whose docid was rejected, and keywords that compare with some of the indexed keywords but not with others are outside the claim.)',
 ['histories', 'inputs', 'fault_sequences'], 'every history with a failing call at any point, every rejected docid',
 'The tests check that some calls raise, never what the index answers afterwards.',
 ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py', 'text/textindex.py', 'text/lexicon.py'],
 [('index_doc', 'field/index.py'), ('_insert_forward', 'keyword/index.py'), ('_reindex_doc', 'text/okapiindex.py')],
 ['*.index_doc', '*.unindex_doc', 'Lexicon.sourceToWordIds'])

prop('C01', 'Concurrent transactions on one index do not lose or corrupt updates',
 'When two ZODB transactions change the same field, keyword, topic or text index concurrently (index_doc, reindexing, unindex_doc, clear, clearFilters, optimize, growing sets and dictionaries into trees, learning words in the lexicon) and commit one after the other, then either the second one fails with a ConflictError, and the index is as after the first one, or both commit and the index answers all queries and counters as after one serial order of the two. '
 'For a topic index, the two transactions are about different documents. No change is lost because the object it was made in is no longer used by the index.',
 ['schedules', 'histories'], 'every pair of concurrent transactions, from every committed state',
 'The tests have no transactions at all.',
 ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py', 'text/lexicon.py'],
 [('conversion of keyword sets', 'keyword/index.py'), ('Length counters and BTrees with conflict resolution', 'text/baseindex.py'), ('_new_wid', 'text/lexicon.py')],
 ['*.index_doc', '*.unindex_doc', 'KeywordIndex.optimize', 'Lexicon.sourceToWordIds'])

prop('I01', 'Results and arguments belong to the caller',
 'A result of apply, search, search_phrase, search_glob or get_words of a field, keyword, topic or text index (and the list of a sort) does not change when the index changes afterwards (index_doc, unindex_doc, clear, clearFilters, optimize), and changing a result in place (clearing it, adding, removing) changes neither the answers and counters of the index nor other results. '
 'Changing the sequence of keywords or the text list after it was passed to index_doc does not change the index.',
 ['histories', 'inputs'], 'every history, every query, every change of the index or of a result afterwards',
 'The tests look at each result once, right after the query.',
 ['field/index.py', 'field/sorting.py', 'keyword/index.py', 'topic/index.py', 'text/baseindex.py', 'text/cosineindex.py', 'text/okapiindex.py', 'text/setops.py', 'text/textindex.py', 'text/parsetree.py'],
 [('search', 'keyword/index.py'), ('search', 'topic/index.py'), ('_trivial', 'text/setops.py'), ('get_words', 'text/baseindex.py')],
 ['*.apply', '*.search', '*.get_words'])

prop('V01', 'Indexes do not influence each other',
 'Whatever is done to one index (field, keyword, topic, Okapi, cosine or text), lexicon, query parser, NBest or RiceCode object, another one, of the same or another class, made in the same process gives the answers it would give alone: interleaving the calls of two objects changes no query result, score, counter or order of either. '
 'This includes two text indexes that share a lexicon (each knows exactly the words and scores of its own documents), filters of the same name and different expressions in two topic indexes, and indexes of different families, keyword normalization and tree thresholds.',
 ['histories', 'inputs', 'configurations'], 'every interleaving of the calls of two objects',
 'The tests use one object at a time; state that is kept in a class or module by mistake shows only with two.',
 ['field/index.py', 'keyword/index.py', 'topic/index.py', 'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py', 'text/textindex.py', 'text/lexicon.py', 'text/queryparser.py', 'nbest.py', 'text/ricecode.py'],
 [('per-instance state made by clear()', 'text/baseindex.py'), ('lexicons can be shared across indices', 'text/baseindex.py'), ('per-filter expression', 'topic/filter.py')],
 ['*.index_doc', '*.apply', '*.search', 'Lexicon.sourceToWordIds'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + '\n')
    print(len(P), 'properties')
