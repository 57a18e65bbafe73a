#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of its text, kept readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


B = "sbclassifier/classifiers/basic.py"
S = "sbclassifier/classifiers/storage.py"
SL = "sbclassifier/classifiers/slurping.py"
C = "sbclassifier/corpora/caches.py"
F = "sbclassifier/corpora/filesystem.py"
CB = "sbclassifier/corpora/base.py"
M = "sbclassifier/message.py"
T = "sbclassifier/tokenizer.py"
ST = "sbclassifier/strippers.py"

prop("C01", "Training counts each message once and each distinct token once",
     "Learning a message as spam (or ham) raises the number of spam (or ham) messages by exactly one, and raises by exactly one the spam (or ham) count of every distinct token in it, however often the token occurs and whether the tokens come as a list, a set or a one-shot iterator. All other counts stay as they were. This holds in every storage back end.",
     ["inputs", "histories", "configurations"],
     "Every token stream (empty, with repeats, one-shot), every prior training state of every token, both labels, every classifier class, with and without bigrams.",
     "The tests learn a few fixed lists of words; whether a repeated token, an iterator or a particular stored state of a token is miscounted depends on inputs and histories they do not sample.",
     [B, S, SL], [("learn", B + ": Classifier.learn and what it calls"), ("per-word update", S + ": ShelveClassifier word lookup and store")],
     [("nspam, nham", "number of messages learned"), ("wordinfo", "per-token counts")])

prop("C02", "Untraining is the exact inverse of training and never goes negative",
     "Unlearning a message that was learned restores every count to its value before the learning, and a token whose counts both reach zero is no longer known. No count ever becomes negative, whatever is unlearned, and unlearning from a class of which no message was learned is refused with an error that leaves every count unchanged.",
     ["inputs", "histories", "configurations"],
     "Every token stream and label, every prior state of every token, every classifier class.",
     "Inverse behaviour must hold from every training state; tests walk through a handful of learn/unlearn sequences on one or two words.",
     [B, S, SL], [("unlearn", B + ": Classifier.unlearn and what it calls"), ("deletion", S + ": ShelveClassifier word deletion")])

prop("C03", "Scoring never changes the training data",
     "Computing the spam probability of a message, with or without evidence, leaves the numbers of learned messages and every token's counts as they were, in memory and in the stored database, and adds no token to the database. The same holds for asking for the probability of a single token record.",
     ["inputs", "histories", "configurations"],
     "Every message scored, every training state, every classifier class, with and without evidence and bigrams.",
     "Tests compare a few scores; a score that silently creates or touches records for unknown tokens shows only in later training or in the saved database.",
     [B, S, SL], [("spamprob", B + ": Classifier.spamprob"), ("probability", B + ": Classifier.probability")])

prop("C04", "A token's probability is the Bayesian-adjusted ratio of its frequencies",
     "The spam probability of a token with counts s and h, of n = s + h, is (k*x + n*p) / (k + n), where p = (s/nspam) / (s/nspam + h/nham), x is the configured probability of an unknown word, k > 0 the configured weight of that prior, and totals of zero count as one. A token that was never trained has exactly the probability x, and a record with counts larger than the totals is refused with an error.",
     ["inputs", "histories"],
     "Every pair of counts and totals.",
     "Tests check that scores end up above or below a cutoff; a formula that is wrong for unbalanced training or rare tokens still passes.",
     [B], [("probability", B + ": Classifier.probability"), ("unknown words", B + ": distance of a word without record")])

prop("C05", "Cached token probabilities are never stale",
     "Whatever was computed before, the probability used for a token is always the one that follows from the current counts of that token and the current numbers of learned messages. No value cached before learning, unlearning, unpickling or loading a database is used afterwards, and a value cached for one pair of counts is never used for another.",
     ["histories"],
     "Every history of scoring, learning, unlearning, pickling and loading, every classifier class.",
     "Staleness shows only when scoring, then training, then scoring again the same counts; tests do not interleave these.",
     [B, S], [("cache", B + ": Classifier.probability"), ("invalidation", B + " and " + S + ": learn, unlearn, load, unpickling")])

prop("C06", "A message's score combines its clues by two chi-squared statistics",
     "With n clues of probabilities p, the score is (S - H + 1)/2 where S = 1 - Q(-2*sum(ln(1-p)), 2n), H = 1 - Q(-2*sum(ln p), 2n), and Q is the chi-squared tail probability with an even number of degrees of freedom, never above 1; without clues it is 0.5. The products behind the sums do not underflow however many and however extreme the clues are, and asking for the evidence does not change the score.",
     ["inputs"],
     "Every number of clues and every probability strictly between 0 and 1.",
     "Tests look at the side of the cutoff for a few words; symmetric or scaling mistakes, and underflow with many clues, stay unseen.",
     [B], [("spamprob", B + ": Classifier.spamprob"), ("chi2Q", B + ": chi2Q")])

prop("C07", "Scoring uses each distinct strong token once, the strongest if too many",
     "The clues behind a score are the distinct tokens of the message whose probability is at least the configured minimum away from 0.5, each used once; if there are more than the configured maximum, exactly the weakest (nearest to 0.5) are left out. With bigrams, clues that share a word position of the message are never used together, and stronger clues are preferred to weaker ones.",
     ["inputs", "configurations"],
     "Every token stream, every training state, with and without bigrams.",
     "The tests score messages of three words, far from the limit on clues and without repeats or overlaps.",
     [B], [("clue selection", B + ": Classifier.spamprob and its clue selection")])

prop("C08", "With bigrams, training and scoring see the same words and pairs",
     "When bigrams are used, training counts every word of the message and every pair of adjacent words, and nothing else, even if the words come from a one-shot iterator. Scoring looks up exactly the same words and pairs, spelled the same way, with the two words in the same order.",
     ["inputs", "configurations"],
     "Every token stream, including empty ones, single words and one-shot iterators.",
     "The only test with bigrams passes even if no pair is ever trained or looked up, because the single words decide.",
     [B, SL], [("pairs in training", B + ": Classifier.learn/unlearn with bigrams"), ("pairs in scoring", B + ": clue selection")])

prop("C09", "A shelf-backed classifier writes back every change exactly",
     "After storing, the shelf holds for every token exactly the counts the classifier reports, no entry for a token that is no longer known, and the current numbers of messages; what was trained is never lost or resurrected by storing, closing and loading again. Between stores, the classifier reports the counts that follow from its training whether a token is in memory, only in the shelf, changed or deleted, and storing never fails because of an earlier deletion.",
     ["histories", "inputs"],
     "Every history of learning, unlearning, scoring and storing, and every token.",
     "A token moves through several states (only on disk, in memory, changed, deleted), and losing an update needs a particular sequence; tests run a few.",
     [S], [("write-back cache", S + ": ShelveClassifier lookup, set, delete, store, load")],
     [("changed_words / deleted_words", "words to write or delete at the next store")])

prop("C10", "What a classifier saves it reads back unchanged",
     "For the pickle, the shelf and the constant database alike, loading what was stored gives back the same number of spam and ham messages and the same spam and ham counts for every token, with spam and ham never exchanged. Different tokens, text or bytes, never share a key, and no token is confused with the entry for the totals.",
     ["inputs", "histories", "configurations"],
     "Every token (text or bytes), every pair of counts, every back end.",
     "Tests use the same count layout for writing and reading in one process and only ordinary words as tokens.",
     [B, S], [("state tuples", B + ": pickling of Classifier and WordInfo"), ("records", S + ": ShelveClassifier, CDBClassifier")])

prop("C11", "Saving a pickle is atomic, locked, and leaves no litter",
     "Saving replaces the previous file only by a complete new one: at every moment, and wherever a failure or crash happens, the file under the given name is either entirely the old one or entirely the new one. Reading and writing happen while holding the lock for that file, which is released in every case, and a failed save reports its error and leaves no temporary file behind.",
     ["crash_points", "fault_sequences", "schedules"],
     "Every point of failure or crash during a save, every interleaving with another reader or writer.",
     "Tests never fail or interrupt a save.",
     ["sbclassifier/safepickle.py", S], [("pickle_write / pickle_read", "sbclassifier/safepickle.py")])

prop("C12", "A database that cannot be read is reported, never silently replaced",
     "Loading starts with an empty database only if there is none; if there is one that is unreadable, damaged or of an unknown version, loading raises an error. An unknown version is detected before any of the classifier's counts are changed.",
     ["fault_sequences", "inputs"],
     "Every kind of unreadable or foreign database, for every back end.",
     "Tests load good databases; one simulated failure covers a single exception.",
     [B, S], [("load", S + ": PickleClassifier.load, ShelveClassifier.load, CDBClassifier.load"), ("unpickling", B + ": Classifier state")])

prop("C13", "The in-memory cache is consistent, bounded and first-in first-out",
     "After any sequence of puts and removals, the cache holds at most its maximum number of entries, and its length, iteration, keys, lookups and items agree. A key holds the value last put under it, and when the bound is exceeded exactly the entry whose key was added first is dropped; putting a present key again neither adds an entry nor drops one.",
     ["histories"],
     "Every sequence of put, get and pop, every bound.",
     "Consistency of the order list and the data depends on the history (re-adding, removing, overflowing), of which tests sample a few.",
     [C], [("NaiveCache", C + ": NaiveCache.put, pop, get")])

prop("C14", "Messages in a directory corpus are durable until removed",
     "Adding a message to a directory-backed corpus writes its content to its file, and the file stays until that message is removed, no matter how many messages are added or dropped from memory; removing a message removes its file. Expiry removes exactly the messages whose files are older than the limit. Counting, listing and looking up cover the files in the directory that match the name filter, and a message that cannot be serialized changes nothing, in particular not a file stored before.",
     ["histories", "fault_sequences"],
     "Every sequence of additions, accesses and removals, every memory limit, every failure to serialize.",
     "Tests stay within the memory limit or look at the corpus object rather than the files after eviction.",
     [C, F], [("FileCache", C + ": FileCache.put, pop, __getitem__, keys, __len__")])

prop("C15", "A directory corpus never touches files outside its directory",
     "Whatever message id is used for adding, reading or removing a message, a directory-backed corpus creates, overwrites, reads or deletes only files directly inside its own directory. An id that is not a plain file name, or does not match the name filter, is refused with an error before anything is changed.",
     ["inputs"],
     "Every message id, including ones with path separators and parent directories taken from a message's own header.",
     "Tests use plain ids only.",
     [C, F], [("path construction", C + ": FileCache"), ("expiry", F + ": ExpiryFileCorpus")])

prop("C16", "Corpus changes notify subscribers exactly once, after the change",
     "Adding (or removing) a message makes the change in the corpus's store under the message's key and then, unless notification was switched off, notifies the subscribers of additions (or removals) exactly once, with the corpus and that message. If the change fails, nobody is notified. A cache given by the caller, even an empty one, is the one used.",
     ["histories", "inputs", "fault_sequences"],
     "Every message, explicit or implied key, notification on or off, every failure of the store.",
     "Tests count signals for successful additions; order and failing stores are not sampled.",
     [CB], [("add_message / remove_message", CB + ": Corpus")])

prop("C17", "A trainer learns what is added and unlearns what is removed",
     "A trainer attached to some corpora learns every message added to exactly these corpora and unlearns every message removed from them, with the trainer's own label and the tokens of that very message. After training, the message remembers the label, and after untraining it remembers none; if the classifier refuses, the message's mark stays as it was.",
     ["histories", "inputs", "fault_sequences"],
     "Every set of corpora, both labels, every message.",
     "The only test of trainers is empty.",
     ["sbclassifier/trainers.py"], [("Trainer", "sbclassifier/trainers.py")])

prop("C18", "A message's id, once set, is a valid string and never changes",
     "A message accepts as id only a string that is not one of the reserved database keys, refuses anything else with an error, and refuses to change an id once set to a different one; a refused attempt leaves the id as it was. Messages created from text, bytes or a file have exactly the id given, and taking the id from the message's own header gives either that header's value or none, without an error.",
     ["inputs", "histories"],
     "Every previous id and every new one, of any type.",
     "Tests try a few ids in a fixed order.",
     [M], [("set_id", M + ": Message.set_id, set_id_from_payload, from_path, from_bytes, from_string")])

prop("C19", "Classification follows the cutoffs and agrees with the header",
     "A message with probability below the ham cutoff is classified ham, above the spam cutoff spam, and otherwise, including exactly on a cutoff, unsure; an explicit classification is taken as it is, and anything else is refused with an error that changes nothing. The classification header and the notations in other headers always name the classification that follows from the given probability.",
     ["inputs"],
     "Every probability and every previous classification.",
     "Tests sample a few probabilities, not the cutoffs themselves in every place where they are used.",
     [M], [("set_classification", M + ": Message.set_classification"), ("add_sb_headers", M + ": Message.add_sb_headers")])

prop("C20", "Every header the classifier adds can be listed and removed again",
     "Each header that adding the classifier's headers can put on a message, under any combination of options, is among those reported as current when present and among those deleted on removal, and a header reported by one is removed by the other. Removing the recipient or subject notations happens exactly for those asked for, removes at most one notation from each, and does not touch headers the classifier did not add.",
     ["configurations", "inputs"],
     "All combinations of options and all values of the headers.",
     "Tests try options one at a time; a header added under a rarely used option but never removed would be trained on.",
     [M], [("headers", M + ": Message.add_sb_headers, current_sb_headers, remove_sb_headers, remove_notations")])

prop("C21", "A message rendered as text uses CRLF line ends only",
     "Every way of rendering a message as text returns text in which every line ends with CR LF and no bare CR or LF remains, also on the fallback path for messages whose parts cannot be flattened together. Text whose line ends are CR LF already is left unchanged.",
     ["inputs"],
     "Every message, every mixture of line ends.",
     "Tests render a few well-formed messages.",
     [M], [("as_string", M + ": Message.as_string, force_crlf")])

prop("C22", "Classifier headers cannot inject other headers",
     "Whatever tokens and probabilities make up the evidence, the value of each header added to a message is a single well-formed header value: no text taken from the message or from its tokens puts a line break into it, and the only line breaks are those of the header's own folding, which are followed by white space. Every clue within the cutoff is listed, in order, and no other.",
     ["inputs", "configurations"],
     "Every list of clues, including tokens with control characters, line breaks or non-ASCII characters, text or bytes.",
     "Tests use harmless ASCII words as clues.",
     [M], [("evidence header", M + ": Message.add_sb_headers")])

prop("C23", "Tokenizing any message never confuses text with bytes",
     "For any message and any setting of the options, producing the tokens performs no operation that mixes text with bytes or applies a text operation to a header object, a missing value or another wrong type, and therefore never stops with a type error. Every token produced is bytes.",
     ["inputs", "configurations"],
     "Every message (missing, encoded, non-ASCII or malformed headers; undecodable bodies) and all combinations of the tokenizer's options.",
     "The tokenizer's test is empty, and most of the options and header forms are never exercised.",
     [T, ST, "sbclassifier/dnsutils.py", "sbclassifier/iputils.py"], [("Tokenizer", T + ": Tokenizer.__call__ and what it calls"), ("strippers", ST)])

prop("C24", "Tokens depend on the message alone",
     "Tokenizing a message neither changes the message nor leaves anything behind that can influence the tokens of another message, except for remembered answers of name lookups. Tokenizing the same message twice therefore gives the same tokens, so that what was learned can be unlearned.",
     ["histories", "inputs"],
     "Every sequence of messages.",
     "A leak from one message to the next shows only in particular sequences of messages.",
     [T, ST], [("Tokenizer", T + ": Tokenizer.__call__ and what it calls")])

prop("C25", "Stripping special sections loses and duplicates no other text",
     "Removing the special sections (uuencoded parts, URLs, styles, comments, noframes) keeps, once and in order, exactly the text outside of the matched sections, treats a section that never ends as ordinary text, and produces the tokens of each section found. It always terminates.",
     ["inputs"],
     "Every text and every pair of start and end patterns.",
     "No test covers the strippers.",
     [ST], [("Stripper.analyze", ST + ": Stripper.analyze and the strippers built on it")])

prop("C26", "A name lookup restores the process-wide timeout and never fails",
     "A name or address lookup runs with the library's own socket timeout, and the timeout in force before is restored however the lookup ends, whether it succeeds, finds nothing or fails. A name or address that cannot be resolved or is malformed gives an empty result instead of an error, and an answer of the resolver is the result.",
     ["fault_sequences", "inputs", "histories"],
     "Every outcome of the resolver, every name or address.",
     "Tests look up one or two names and do not look at the timeout afterwards.",
     ["sbclassifier/dnsutils.py"], [("timed", "sbclassifier/dnsutils.py")])

prop("C27", "No code path uses a name, attribute or signature that does not exist",
     "On every path of the library, every name, every attribute of the library's own modules, classes and objects, and every argument list of the library's own functions used exists as it is used. No operation therefore stops with a name, attribute or call error of the library's own making.",
     ["programs", "configurations"],
     "Every path of every module, under all combinations of the options.",
     "Tests execute a part of the paths; a typo on an error path or behind an option is found only by its first user.",
     ["sbclassifier/"], [("all modules", "sbclassifier/")])

prop("C28", "The constant database is written as it is read",
     "For any items, the constant-database file written has, for each key, a record and a hash slot that a lookup of that key probes, so that iterating gives back all items and a lookup of each key gives back the value of its first item, continued by those of its further items in their order; positions, lengths and hash values in the file count bytes. A lookup of a key that is not there reports that it is missing (KeyError, or the default given).",
     ["inputs"],
     "All sequences of items, text or bytes.",
     "No test covers the constant database.",
     ["sbclassifier/cdb.py"], [("cdb_make / Cdb", "sbclassifier/cdb.py")])

prop("C29", "The network is consulted only for undecided messages",
     "When scoring, the network is used only if the score without it is strictly between the cutoffs, the list of clues of that score is shorter than the maximum number of clues, and the message has a link; the tokens of the page change the result, and its clues, only if they move the score out of the undecided range. Scoring and training never follow links on the fetched page. A link that failed, in whatever way, is not requested again, neither by the same classifier nor by another one that uses the same cache directory; a fetched page that is in the cache is not fetched again. A failing network makes neither scoring nor training fail.",
     ["inputs", "histories", "configurations"],
     "Every message, every training state, every content of the caches.",
     "No test covers the class that follows links.",
     [SL], [("SlurpingClassifier", SL)])

prop("C30", "Clues from an IP address name its own networks",
     "For an address, the clues are one for each configured prefix length, in order: the given prefix, a colon, and the network of that length that contains the address, with its length. An address with host bits set is accepted, and the configured prefix lengths are used when none are given.",
     ["inputs"],
     "Every IPv4 address, every sequence of prefix lengths.",
     "Tests compare one or two addresses.",
     ["sbclassifier/iputils.py"], [("subnets", "sbclassifier/iputils.py")])

# ---- not decided by this framework (see DESIGN.md) ----
prop("C31", "Training makes similar messages score on the right side",
     "After training on enough representative messages, unseen messages of the same kinds are classified as spam or ham accordingly, with few errors.",
     ["inputs", "histories"], "Every training set and every message.",
     "Accuracy is a statistical statement about real mail.",
     [B, T], [("classification", B)])
prop("C32", "Scores stay within the unit interval despite rounding",
     "Every score and every token probability returned is a floating-point number between 0 and 1 inclusive, in spite of accumulated rounding errors.",
     ["inputs"], "All floating-point inputs reachable by training.",
     "Rounding behaviour depends on the exact operands.",
     [B], [("spamprob", B)])
prop("C33", "Concurrent training of one shelf loses no update",
     "Two processes or threads training and storing the same shelf-backed classifier at the same time lose no update and do not corrupt the shelf.",
     ["schedules"], "Every interleaving of two trainers.",
     "No test runs two trainers at once.",
     [S], [("ShelveClassifier", S)])
prop("C34", "A crash during training or storing a shelf loses at most that message",
     "If the process dies while a shelf-backed classifier learns or stores, the shelf found afterwards reflects all messages trained and stored before, with totals that fit the counts.",
     ["crash_points"], "Every point at which the process dies.",
     "No test interrupts a store.",
     [S], [("ShelveClassifier", S)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P))
