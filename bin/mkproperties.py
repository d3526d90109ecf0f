import json
P=[]
S="src/samplers/"
def p(id,title,st,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None)))
p("P01","Construction keeps every value and rejects NaN",
 "Building a logits list from values gives one item per value, in order, with token ids 0,1,2,…, the exact value as its logit, probability 0 and neither the sorted nor the softmax mark set. If any value is NaN, construction fails and identifies the first offending token. Building from a vector and from an iterator agree.",
 ["inputs"],"every list of float values (any bit pattern, including infinities, subnormals and NaN payloads)",
 "Tests build a few fixed lists of ordinary values; the claim is over all bit patterns and NaN positions.",
 ["src/types.rs"],[("conversion with NaN check","src/types.rs Logits::try_from_iter, TryFrom<Vec>")])
p("P02","Top-k construction equals the k largest logits of the full list",
 "Building a list limited to k considers the finite values only and keeps exactly min(k, how many there are) tokens with their original ids and logits, in descending order and marked sorted, such that no dropped finite value is larger than a kept one. Every k, including 0 and the largest integer, is accepted without a crash.",
 ["inputs"],"all value lists, all k",
 "Tests use one random list and one k against a sort; ties, k>n, k=0, k near the integer maximum, infinities and NaN among the values are not reached.",
 ["src/types.rs"],[("bounded insertion of the largest values","src/types.rs Logits::try_from_iter_top_k")])
p("P03","The sorted mark is never a lie",
 "After any sampler runs on a list whose marks are right, a list still marked sorted really is in non-increasing logit order. Sorting a list orders it by logit, permutes its items without altering them, and is a no-op when the list is already marked sorted.",
 ["inputs","configurations"],"every logits list in any valid bookkeeping state × every sampler × every option value",
 "Later samplers trust the mark and skip sorting, so a stale mark silently corrupts their output; tests run each sampler on one freshly built list.",
 ["src/types.rs",S],[("sorted flag maintenance","src/types.rs ensure_sorted/set_sorted and every sampler's set_sorted call")])
p("P04","Probabilities marked valid are the softmax of the current logits",
 "Computing probabilities yields values in [0,1] that equal exp(logit - max)/sum for the current logits, in descending order, whatever was left in the probability fields. After any sampler runs, a list still marked as having valid probabilities either is unchanged or its probabilities are the softmax of its current contents: removing tokens or changing logits never leaves stale probabilities marked valid.",
 ["inputs","configurations"],"every logits list in any bookkeeping state × every sampler × every option value",
 "The mark is what later samplers trust; tests never chain a filter after a list that was already softmaxed in the combinations that expose a forgotten reset.",
 ["src/types.rs",S],[("softmax flag","src/types.rs ensure_softmax/set_softmax and the set_softmax(false) of each sampler")])
p("P05","Filters only remove, penalties only change logits, pickers pick from the list",
 "Filtering samplers return a subset of the input items with ids and logits unchanged, no token twice, and never fewer than the configured minimum (when that many exist). Bias, penalty and temperature samplers keep every token in place. Picking samplers pick a token that is in the list, pick one whenever the list is not empty, and never empty it.",
 ["inputs","configurations"],"every list × every option value, including extreme and meaningless ones",
 "Tests compare fixed outputs for a handful of settings; options outside the sensible range (p>1, negative, NaN, huge minimums) are not run.",
 [S],[("truncate/take","each filter's truncate"),("min_keep","each filter's min_keep comparison")])
p("P06","Top-K keeps exactly the highest logits",
 "Top-K keeps exactly min(max(k, minimum), n) tokens: the ones with the highest logits, in descending order. When nothing is removed the probabilities stay valid.",
 ["inputs","configurations"],"all lists, k and minimum over the whole integer range",
 "Tests use one 4-element list and two k values.",
 [S+"top_k.rs"],[("sort then truncate",S+"top_k.rs sample")])
p("P07","Top-P keeps the shortest prefix reaching p",
 "Top-P keeps the tokens in descending probability up to and including the first one at which the accumulated probability is at least p and at least the minimum number of tokens have been kept; if that never happens everything is kept. At least one token always survives.",
 ["inputs","configurations"],"all probability distributions, all p, all minimums",
 "The boundary (accumulated mass exactly p, minimum binding exactly) is a measure-zero set random or fixed tests miss.",
 [S+"top_p.rs"],[("cumulative scan",S+"top_p.rs sample")])
p("P08","Min-P and Top-A cut exactly below their thresholds",
 "Min-P keeps the tokens whose probability is at least p times the largest, Top-A those at least a1 times the largest to the power a2, plus whatever the minimum (at least one) requires, and nothing else. A zero parameter disables the sampler and leaves the list untouched.",
 ["inputs","configurations"],"all distributions, all parameters, all minimums",
 "Threshold equality, minimum binding and the disabled values are corner cases the fixed-value tests do not touch.",
 [S+"min_p.rs",S+"top_a.rs"],[("threshold scan",S+"min_p.rs, "+S+"top_a.rs sample")])
p("P09","Tail-free and locally-typical cut where their definitions say",
 "Tail-free sampling cuts at the first position, not below the minimum, where the accumulated normalised absolute second difference of the probabilities exceeds z, and is off for z>=1 or up to two tokens. Locally typical sampling orders tokens by how close their surprise is to the entropy, and keeps the shortest such prefix whose mass exceeds p with at least the minimum count.",
 ["inputs","configurations"],"all distributions, all z / p, all minimums",
 "Tests check fixed 4-token examples only; two-token lists and zero probabilities crashed or failed there (fixed defects).",
 [S+"tail_free.rs",S+"locally_typical.rs"],[("derivative scan",S+"tail_free.rs sample"),("typicality order",S+"locally_typical.rs sample")])
p("P10","Repetition penalty hits exactly the recent tokens",
 "Every token among the last N generated tokens has its logit divided by the penalty when positive and multiplied by it otherwise, once however often it occurs; every other logit is bit-for-bit unchanged. A penalty of at most 1, N=0 or an empty history disables it.",
 ["inputs","histories","configurations"],"all lists, all token histories, all N and penalties",
 "Tests use a short history inside the window; window edges (N smaller than, equal to, above the history) and repeated occurrences are not covered.",
 [S+"repetition.rs"],[("window and penalty",S+"repetition.rs sample")])
p("P11","Frequency and presence penalties count the window exactly",
 "A token occurring c>0 times among the last N generated tokens has its logit lowered by c times the frequency penalty plus the presence penalty; every other logit is unchanged. With both penalties 0, or an empty window, nothing changes.",
 ["inputs","histories","configurations"],"all lists, all token histories, all N and penalties",
 "Counts, window edges and negative penalties over arbitrary histories are not settled by one example history.",
 [S+"freq_presence.rs"],[("counting",S+"freq_presence.rs sample")])
p("P12","Sequence repetition penalises exactly the tokens that would extend a repeat",
 "With exact matching, precisely those tokens are penalised that followed an earlier occurrence of the history's last L tokens (L at least the minimum length and at most the window length minus the minimum; an occurrence followed by the history's very last token does not count), and the amount is the flat penalty plus the stacking penalty times the length of the longest repeat the token would complete. With tolerance, up to that many tokens may differ, each spanning at most max(1, max_merge) tokens of the earlier text, and raising the tolerance never penalises fewer tokens; only the last N tokens are considered; with both penalties 0, a minimum below 2 or a window shorter than twice the minimum nothing changes.",
 ["inputs","histories","configurations"],"all token histories × all option values",
 "Tests compare fixed histories (one of them is failing upstream); repeats overlapping the window edge and every combination of tolerance/merge are unbounded.",
 [S+"sequence_repetition.rs"],[("repeat finder",S+"sequence_repetition.rs")])
p("P13","A bias of minus infinity forbids a token for good",
 "Flat bias adds the configured amount to exactly the listed tokens and leaves all others bit-for-bit unchanged. A token biased to minus infinity is never chosen by a picking sampler, through any following positive temperature, penalty or filter, as long as another token keeps a finite logit.",
 ["inputs","configurations","programs"],"all lists, all biases, all forbidden tokens, all sampler sequences of the given shapes, all random draws",
 "Tests bias one token and pick greedily; the guarantee quantifies over pipelines and random draws.",
 [S+"flat_bias.rs",S+"greedy.rs",S+"rand_distrib.rs"],[("bias",S+"flat_bias.rs sample"),("zero weight tokens are not picked",S+"rand_distrib.rs sample")])
p("P14","Temperature divides every logit and is off at 0",
 "Temperature t divides every logit by t, keeping the token order of the list; t=0 changes nothing. A positive temperature keeps the ranking of tokens.",
 ["inputs","configurations"],"all lists and all t including negative, tiny and infinite",
 "Tests use one t on one list.",
 [S+"temperature.rs"],[("division",S+"temperature.rs sample")])
p("P15","Greedy picks a token with the highest logit",
 "Greedy selection returns a token whose logit is at least every other logit, for sorted and unsorted lists alike, leaves the list unchanged, and picks nothing for an empty list.",
 ["inputs"],"all lists (any order, ties, infinities, both zeros)",
 "Tests use one list; the unsorted/sorted shortcut and ties are not covered.",
 [S+"greedy.rs"],[("argmax",S+"greedy.rs sample")])
p("P16","Random selection follows the probabilities",
 "The token chosen for a uniform draw u is the one whose cumulative probability interval contains u, so every token is chosen with its softmax probability; tokens of probability 0 are not chosen. An empty list picks nothing.",
 ["inputs","schedules"],"all distributions × all random draws",
 "Tests use one seed.",
 [S+"rand_distrib.rs"],[("weighted index",S+"rand_distrib.rs sample")])
p("P17","Mirostat cuts by its target surprise and adapts towards it",
 "Mirostat 2 removes exactly the tokens from the first whose surprise exceeds the current bound on (always keeping at least one), picks among the rest, and moves its bound by learning rate × (observed surprise − target). Mirostat 1 keeps the number of tokens given by its Zipf estimate, at least one, and updates in the same way. The observed surprise is that of the picked token's renormalised probability.",
 ["inputs","histories","configurations"],"all distributions, all parameters, all random draws, consecutive calls",
 "Tests fix seed and parameters; the feedback value is internal state whose drift only shows over later calls.",
 [S+"mirostat.rs"],[("cut and feedback",S+"mirostat.rs sample")])
p("P18","Chains run in order and wrappers are transparent",
 "A chain applies its samplers in the order they were added, however it was assembled, reports the token of its last sampler, and stops at the first error, returning it. A sampler used boxed, shared behind a lock or nested in another chain behaves exactly as the sampler itself, including its preparation step.",
 ["programs","inputs","fault_sequences"],"all chains up to the bound built from all assembly methods, any failing position",
 "Tests build two fixed chains; error positions, nesting and wrappers are not run.",
 ["src/chain.rs","src/types.rs","src/configure/building.rs"],[("fold","src/chain.rs sample"),("forwarding impls","src/types.rs, src/configure/building.rs")])
p("P19","A picked token never leaks into a later call",
 "After a call that picks nothing (empty list, failure, missing resource, nothing eligible) the reported token is none, whatever an earlier call picked. After a failed run a chain reports at most a token picked in that very run, and none after it has been extended.",
 ["histories","inputs","fault_sequences"],"all pairs of consecutive calls on the same sampler or chain",
 "Tests call each picker on good input only.",
 ["src/chain.rs",S],[("token reset at start","pickers' self.token = None, src/chain.rs")])
p("P20","Options are set and read by key, unambiguous prefix, and type",
 "Setting an option by its key or an unambiguous prefix and reading it back gives the set value (after conversion to the option's type) and changes no other option (except that setting mirostat's target also resets its bound to twice the target); an exact key always wins. Unknown or ambiguous keys and wrongly typed values are errors that leave every option unchanged. A sampler configured by options behaves as the one constructed with the same values.",
 ["inputs","configurations"],"every sampler × every short key string × every value",
 "Tests set and get a few options of one sampler; one option was unreachable because its key is a prefix of another (fixed defect).",
 ["src/configure",S],[("key lookup","src/configure/metadata.rs find_option_definition"),("set/get","src/configure/configurable.rs"),("option tables",S+"* sampler_options(_mut)")])
p("P21","Configuration strings are parsed as documented",
 "A configuration string is a colon-separated list of key=value settings applied in order, blanks around parts and empty parts being ignored and a lone value meaning an unnamed key; the result is that of setting the options one by one, with floats accepting inf/-inf and integers and booleans their documented forms. Anything else is an error, never a crash.",
 ["inputs"],"all short strings over the relevant alphabet and arbitrary ASCII bytes",
 "Tests parse a handful of strings; a parser's input space is unbounded.",
 ["src/configure/configurable.rs","src/configure/value.rs"],[("splitting","src/configure/configurable.rs configure"),("value parsing","src/configure/value.rs")])
p("P22","The builder yields the configured samplers in slot order",
 "The chain built from named slots contains, in slot order, the sampler of every fixed slot, that of every single slot that has one, and all samplers of every multi slot in configuration order. Configuring a single slot updates its sampler or creates it, configuring a multi slot appends a fresh one, and configuring an unknown or fixed slot, or with a bad string, is an error that adds nothing.",
 ["programs","configurations"],"all slot lists and configuration sequences up to the bound",
 "Tests build one layout.",
 ["src/configure/building.rs"],[("slot handling","src/configure/building.rs configure, ensure_present, into_chain")])
p("P23","Missing resources are reported, not papered over",
 "A sampler that needs a random source or the token history and does not get one fails with a missing-resource error, changes no token's logit and picks nothing; samplers that need neither work without any. Resources hand out exactly what they were built with.",
 ["fault_sequences","inputs"],"every sampler × every combination of absent resources × every list",
 "Tests always provide what is needed.",
 ["src/resource.rs",S],[("resource access","src/resource.rs")])
p("P24","No option value makes a sampler crash or loop",
 "For every option value of the option's type — zero, huge, negative, NaN, infinite — and any valid list and history, every sampler terminates without a panic and gives a list or an error.",
 ["inputs","configurations"],"every sampler × every option value × every small list and history",
 "Tests use sensible values; an overflow for a huge minimum length was found this way (fixed defect).",
 [S],[("arithmetic on option values",S+"*")])
p("P25","A run is a function of its inputs",
 "Token and list left depend only on options, tokens with their logits, history and draws: not on the way the run is started, on what the sampler was used for before (mirostat's moving bound aside, the rest of its state included), on the order in which distinct logits are listed, or on whether they were sorted or had their probabilities computed before. A run changes no option but that bound.",
 ["inputs","histories","programs"],"all samplers × earlier uses × list orders × inputs",
 "Tests call a fresh sampler once, one way, on one list.",
 ["src/types.rs",S],[("entry points","src/types.rs Sampler, Logits::sample*"),("per-run state","src/samplers/*")])
p("P26","Samplers only read the history and draw only to pick",
 "No sampler and no preparation step changes the token history. Only random choice and mirostat draw random numbers, exactly one per picked token and none on an empty list, so that a seeded sequence stays in step.",
 ["inputs","histories"],"all samplers × lists × histories × draws",
 "Tests look neither at the history afterwards nor at the number of draws.",
 ["src/resource.rs",S],[("history use","src/samplers/repetition.rs, freq_presence.rs, sequence_repetition.rs"),("draws","src/samplers/rand_distrib.rs, mirostat.rs")])
p("P27","The option interface serves any sampler's option table",
 "For any implementation of the option traits, with any keys, number types and accessors, lookup, conversion and the before and after hooks work as documented: the after hook sees the new value, the before hook may replace or refuse it, each is called once per setting and not at all when the lookup fails. Every failure is of its documented kind and changes nothing.",
 ["inputs","configurations"],"all small tables of keys × queries × values × hooks × number types",
 "Tests use the built-in tables only, and no hooks.",
 ["src/configure"],[("generic functions","src/configure/configurable.rs configurable_sampler::*"),("key lookup","src/configure/metadata.rs find_option_definition"),("number types","src/configure/value.rs ConfigurableNumValue")])
p("P28","A usual pipeline always ends with one of the offered tokens",
 "Bias, penalties, filters keeping at least one token, temperature and a picker, chained as usual with ordinary values on a non-empty list with a token that is not banned, always give a token of that list. It is among the tokens left, which are tokens of that list, each once, with no NaN logit.",
 ["inputs","programs","histories"],"all pipelines of the usual form × inputs",
 "Tests run no pipeline beyond one or two samplers.",
 ["src/chain.rs",S],[("each sampler's list handling",S),("running the chain","src/chain.rs")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<3,(x['id'],)
