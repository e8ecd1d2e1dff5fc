"""Writes known_findings.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('F03', '6d2c3bb', 'FieldIndex.sort raises TypeError (or misplaces documents) when values are not numbers and an '
                       'id that is not indexed is requested'),
    ('K02', 'e411112', 'KeywordIndex counts a document and remembers it although normalize() dropped all its keywords'),
    ('T01', '2e14e55', 'a reindexed document for which the expression of a topic filter is no longer true stays in it'),
    ('U01', 'b2bba95', 'TopicIndex.apply removes the operator from the dictionary of the caller, so that repeating an '
                       'or query gives the answer of an and query'),
    ('D01', '37900ee', 'TopicIndex.clearFilters changes filter sets in a way that is not stored'),
    ('X01', 'c05e13f', 'OkapiIndex.clear keeps the total document length, later scores are wrong'),
    ('X04', 'd2b2eb5', 'CosineIndex.query_weight is too small for queries with repeated words; TextIndex.apply returns '
                       'scores above 1'),
    ('W02', '8ec5fc5', 'search_phrase matches documents with a word whose code only starts like the code of the last '
                       'word of the phrase'),
    ('L02', 'e49edd3', 'globToWordIds reads the part of the pattern before the first wildcard as a regular expression'),
    ('L02', 'cc7cd93', 'globToWordIds: * and ? do not match a newline in a word, and a trailing newline is ignored'),
    ('R01', 'da1509b', 'RiceCode(0) raises ValueError although m=0 is allowed'),
    ('R02', 'f8a4c70', 'decode_deltas repeats the last element and loses the first delta'),
    ('X05', '454112c', 'okascore.score returns None with an exception set when the pairs have no length, or a frequency '
                       'or a document length is no number'),
    ('B01', '8ac91af', 'a text index that rejected a docid outside the range of its family keeps it for the words of the '
                       'text, later searches for them raise KeyError'),
    ('A01', 'd6c6cfd', 'FieldIndex.wordCount counts the value of a document whose docid was rejected'),
    ('A01', '03bf8e6', 'KeywordIndex.wordCount counts the keywords of a document whose docid was rejected'),
    ('A01', 'b1a33b9', 'OkapiIndex: a text the lexicon refuses, for a known docid, changes the total document length and so '
                       'all later scores'),
    ('I01', '996ccc4', 'KeywordIndex.search of one keyword returns the set stored in the index: it changes with the index, and '
                       'changing it changes the index'),
    ('I01', '64fee9a', 'TopicIndex.search of one filter returns the set stored in the filter'),
    ('C01', '7badc91', 'a document indexed (or unindexed) for a keyword while a concurrent transaction converts the set of '
                       'the keyword (optimize(), or reaching tree_threshold) is missing from (or stays in) all later results'),
    ('Q02', '2026749', 'a query with some 340 nested parentheses raises RecursionError'),
]
out = [{'status': 'fixed', 'property': p, 'commit': c, 'text': 'fixed: property=%s %s %s' % (p, c, w)}
       for p, c, w in FIXED]
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
