import json
D="pkg/dag/dag.go"; S="pkg/dag/set.go"
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
caches=[("ancestorsCache/descendantsCache","memoised transitive relations, invalidated by every mutation",D),("inboundEdges/outboundEdges","the edge relation, stored in both directions",D)]
dagwhy="The unit tests build a handful of fixed graphs and run one operation from a fresh state; %s"
p("C01","A dependency graph never contains a cycle","Whatever sequence of operations is applied, no vertex of a graph is ever its own ancestor or descendant. Adding an edge between two existing distinct vertices is rejected with the loop error exactly when the target already reaches the source, and is otherwise accepted unless the edge already exists.",["histories"],"every history of vertex/edge additions and deletions, queries and reductions","" or dagwhy%"they never add the closing edge after an arbitrary history of deletions and cache-warming queries.",[D],[("loop test in AddEdge","dag.go AddEdge"),("descendants computation","dag.go getDescendantsIDs")],caches,["AddEdge result","GetAncestors/GetDescendants"])
p("C02","Ancestor and descendant queries always equal reachability","After any history of operations, the ancestors and descendants reported for a vertex are exactly the vertices connected to it by a directed path in the current graph, each with its own current value. Asking earlier, or asking about other vertices, never changes a later answer.",["histories"],"every history of mutations interleaved with queries that warm any subset of the memoised answers",dagwhy%"a stale memo needs a particular query before a particular mutation before another query.",[D],[("cache invalidation in AddEdge/DeleteEdge/DeleteVertex/ReduceTransitively",D),("recursive computation","dag.go getAncestorsIDs/getDescendantsIDs")],caches,["GetAncestors","GetDescendants"])
p("C03","Graph mutations do exactly what they document, or nothing at all","A successful vertex or edge addition or deletion changes exactly the named vertex or edge (a deleted vertex takes all its edges with it, so re-adding it gives an isolated vertex with the new value). An operation that cannot be carried out returns the documented error for that situation (empty, unknown, identical, duplicate or missing) and leaves the graph unchanged.",["histories","inputs"],"every reachable graph, every operation and every argument, including empty, unknown, repeated and identical identifiers",dagwhy%"they check the error of a call, not that nothing else changed, on one graph per call.",[D,"pkg/dag/errors.go"],[("argument checks","dag.go checkVertexID/checkEdgeIDs"),("mutators","dag.go AddVertex/DeleteVertex/AddEdge/DeleteEdge")],caches,["every exported query after the operation"])
p("C04","All structural queries of a graph describe one and the same graph","At any moment, edge membership, parents, children, roots, leaves, vertex lookup, the vertex listing, the order and the size all agree on a single set of vertices and edges. A is a child of B exactly when B is a parent of A, roots are the vertices without parents, leaves those without children, and size counts each edge once.",["histories"],"every history of operations and every vertex",dagwhy%"agreement between two directions of storage is only sampled on the fixed graphs.",[D],[("double edge bookkeeping","dag.go AddEdge/DeleteEdge/DeleteVertex/ReduceTransitively")],caches,["IsEdge","GetParents","GetChildren","GetRoots","GetLeaves","GetVertices","GetVertex","GetOrder","GetSize"])
p("C05","Transitive reduction keeps reachability and is minimal","Reducing a graph removes exactly the edges whose endpoints are also connected by a longer path. Every vertex keeps the same ancestors and descendants as before, and no further edge could be removed without losing some reachability.",["histories","inputs"],"every acyclic graph, with any memoised state, reduced any number of times",dagwhy%"reduction is tested on three small graphs.",[D],[("ReduceTransitively",D)],caches,["IsEdge","GetAncestors/GetDescendants after the reduction"])
p("C06","Walks visit every reachable vertex once, in breadth-first order","Walking or listing the ordered ancestors (descendants) of a vertex yields each of its ancestors (descendants) exactly once and nothing else, in order of non-decreasing shortest distance from the vertex, and then ends. This holds whatever order siblings are visited in.",["inputs","schedules"],"every acyclic graph, every start vertex, every sibling order and every interleaving of the walk with its consumer",dagwhy%"sibling order is left to the runtime's random map order and the scheduler.",[D],[("FIFO and visited set","dag.go walkAncestors/walkDescendants")],None,["AncestorsWalker","DescendantsWalker","GetOrderedAncestors","GetOrderedDescendants"])
p("C07","Stopping a walk early is always safe","A consumer may send the stop signal at any moment, including after the last vertex was delivered, and may stop receiving afterwards. The walk then ends without a panic or deadlock, delivers no vertex twice, and its background goroutine always terminates.",["schedules"],"every interleaving of the walk with a consumer that stops at any point, on every acyclic graph",dagwhy%"the signal tests run one schedule and tolerate whatever the walker does after the signal.",[D],[("select over the signal channel","dag.go walkAncestors/walkDescendants"),("channel closing","dag.go AncestorsWalker/DescendantsWalker")],None,["ids channel","signal channel","goroutine count"])
p("C08","Set operations compute the mathematical result and keep operands intact","For all sets, including nil and empty ones, intersection, difference, filter, copy, list, membership, addition and deletion give exactly the elements their names promise. No operation changes an operand it is not documented to change, and a returned set shares no storage with its operands.",["inputs"],"all pairs of sets, all elements and all predicates",  "The tests check a few literal sets and compare only the result, not the operands or later independence of the result.",[S],[("Set methods",S)],None,["result and operands after each method"])
p("C09","Answers handed out by a graph are snapshots","Modifying a map or slice returned by any graph query never changes the graph, and later changes to the graph never alter an answer already returned.",["histories"],"every query, every caller-side modification of its result and every later operation",dagwhy%"no test writes to a returned map.",[D],[("copyMap/loadFromCache",D)],caches,["returned maps and slices","later queries"])
X="pkg/etx/"
gram=("grammar in struct tags","pkg/etx/*.go parser tags")
lex=("lexer rules",X+"lexer.go lexRules")
p("C10","Parsing any text ends with either a tree or an error, and never panics","For every input, parsing terminates and returns either a non-nil tree and no error, or no tree and an error; it never panics. Text made only of blank space, line breaks and complete comments is always accepted.",["inputs"],"every input text, including truncated and malformed ones","Tests parse a few hundred well-formed snippets and about twenty malformed ones.",[X+"parser.go",X+"lexer.go",X+"value.go"],[("Parse entry points",X+"parser.go"),lex,("captures","value.go Capture methods")],None,["Parse/ParseString/ParseBytes results"])
p("C11","All parsing entry points agree","Parsing the same text from a string, from a byte slice or from a reader gives the same verdict and, when accepted, equal trees, independently of earlier parses. The caller's bytes are never modified, and a reader that fails gives an error and no tree.",["inputs","histories"],"every input text and every earlier sequence of parses","Tests run each entry point on separate fixed inputs.",[X+"parser.go"],[("Parse, ParseString, ParseBytes",X+"parser.go")],None,["returned trees and errors"])
p("C12","Every node of a parsed tree knows its parent","After a successful parse, every node reachable from the tree has as parent the node that contains it, and top-level items have no parent. This includes every nested operand, index, call argument, postfix chain and interpolated expression.",["inputs"],"every accepted input text","The parent test walks one small tree.",[X+"parser.go",X+"ast.go"],[("updateParentRefs",X+"parser.go"),("Children methods","pkg/etx/*.go")],None,["ASTNode.Parent"])
p("C13","Cloning a tree node is deep, faithful and independent","A clone formats the same and carries the same content and positions as the original, with no parent set on the clone, and shares no mutable node, list or number with it. Modifying any part of the clone never affects the original, and cloning an absent node gives an absent node.",["inputs"],"every node of every type with every combination of optional parts and any list lengths","Tests compare clones of a few literals with deep equality, which does not notice shared pointers.",["pkg/etx"],[("Clone methods","pkg/etx/*.go"),("cloneCollection, cloneStrings",X+"utils.go")],None,["clone and original after mutation"])
p("C14","A node's children are exactly its direct sub-nodes","Listing the children of any node returns every node directly contained in it that is present, each exactly once and in a fixed order, and nothing else; each is the contained node itself, not a copy.",["inputs"],"every node type with every combination of optional parts and any list lengths","Tests compare one or two literals per type.",["pkg/etx"],[("Children methods","pkg/etx/*.go")],None,["Children()"])
p("C15","Operators bind with the documented precedence","Expressions group operators by the documented precedence: postfix, unary, multiplicative, additive, shift, relational, equality, bitwise AND, XOR, OR, logical AND, logical OR, conditional. The conditional operator groups to the right, parentheses override precedence, and operators of one level keep the written order of their operands.",["inputs"],"every combination of operators, operands and parentheses","Tests parse each operator in isolation and very few combinations.",[X+"expr.go",X+"README.md"],[("one grammar rule per level",X+"expr.go")],None,["shape of the parsed expression"])
p("C16","Operators, keywords and identifiers are recognised whole","A multi-character operator is read as one operator wherever it is written, with or without surrounding blanks, and is never split into or confused with shorter ones (a minus sign directly between two words belongs to a hyphenated name, and << directly before a word and a line break opens a heredoc). A name that merely starts or ends with a keyword is an ordinary identifier, and a dotted or hyphenated name keeps all its characters.",["inputs"],"every operator, every identifier and every surrounding text","Tests use well-spaced operators and short identifiers.",[X+"lexer.go",X+"expr.go",X+"ident.go"],[lex],None,["operator and identifier strings in the tree"])
p("C17","Number literals denote exactly the number written","Every accepted decimal, hexadecimal, binary and octal literal, with or without digit separators, yields the value written: exactly for every integer, however long, and as the nearest value at the literal's precision (53 bits or more) for a fraction that has no exact binary form. The literal's source text is retained (a leading-zero octal normalised to its prefixed form). Distinct integers never become equal values.",["inputs"],"every number literal, however long","Tests check about thirty literals, none above 53 bits.",[X+"value.go",X+"lexer.go"],[("ValueNumber.Capture",X+"value.go"),lex],None,["ValueNumber.Value","ValueNumber.Source"])
p("C18","String literals keep their content exactly","The pieces of a quoted string, taken in order, spell exactly the characters between its quotes: text, the other kind of quote, escapes, unicode escapes, escaped interpolation markers, and embedded expressions and directives. The string ends at the first unescaped matching quote that is outside an embedded expression.",["inputs"],"every quoted string in both quote styles","Tests use a few dozen strings; unusual adjacent pieces are not combined.",[X+"value.go",X+"lexer.go"],[lex,("StringFragment grammar",X+"value.go")],None,["fragments of the string value"])
p("C19","Heredocs keep their text and end at their delimiter","A heredoc's text pieces, taken in order, spell exactly the lines between the opening line and the first line consisting of the delimiter, with embedded expressions and directives in place. A longer word starting with the delimiter does not end it, and the text after the closing delimiter is parsed as usual.",["inputs"],"every delimiter and every body","Tests use one delimiter and a few bodies.",[X+"value.go",X+"lexer.go"],[("Heredoc rules with back-reference",X+"lexer.go"),("Heredoc grammar",X+"value.go")],None,["heredoc fragments and delimiter"])
p("C20","Formatting a parsed tree never panics","For every tree obtained by a successful parse, formatting the tree, or any node in it that can be formatted and that represents source text, returns text and never panics.",["inputs"],"every accepted input text","Tests format hand-written literals, mostly without comments or blank lines inside collections and types.",["pkg/etx"],[("FormattedString methods","pkg/etx/*.go")],None,["FormattedString()"])
p("C21","Formatting an expression preserves its meaning","Formatting a parsed expression gives text that parses again, to an expression with the same operators, grouping, identifiers, calls, indexes, branches, literals and interpolations (grouping parentheses around a single operand aside).",["inputs"],"every accepted expression","No test parses formatted output.",[X+"expr.go",X+"value.go"],[("FormattedString methods",X+"expr.go")],None,["parse of the formatted text"])
p("C22","Formatting a document preserves its declarations, types, functions and blocks","Formatting a parsed document gives text that parses again to the same items in the same order, with the same names, labels, types, parameters, results, bodies and values; only blank lines and layout may differ.",["inputs"],"every accepted document","No test parses formatted output.",["pkg/etx"],[("FormattedString methods","pkg/etx/*.go"),("indent",X+"utils.go")],None,["parse of the formatted text"])
p("C23","Comments are kept and never change the code around them","A comment at a place where comments are allowed is recorded with its exact text, and the items around it parse as they would without it. Nothing inside a comment is interpreted as code, and a comment ends at the line break or at the first closing mark.",["inputs"],"every comment text and every allowed place","Tests use a few fixed comments.",[X+"comment.go",X+"lexer.go",X+"ast.go"],[lex,("Comment alternatives in items","pkg/etx/*.go")],None,["Comment nodes and their neighbours"])
p("C24","Every node's position is where its text begins","Each node of a parsed tree records the offset, line and column of the first character of its own text, counting lines from the line breaks before it, whatever layout, comments and multi-byte characters precede it.",["inputs"],"every accepted text, layout and preceding content","Positions are blanked out in almost all parser tests.",["pkg/etx"],[("ASTNode.Pos",X+"ast.go"),lex],None,["ASTNode.Pos"])
p("C25","Declarations, types, functions, blocks and attributes parse as written","A parsed document contains exactly the items written, in order: each declaration, type, function, block, attribute, list and map keeps its kind, name, labels, parameters, result types, entries and values, none missing, duplicated or swapped. Optional separators, line breaks and blank lines do not change the items.",["inputs"],"every combination of constructs, optional parts, names and layouts","Tests cover each construct with a few fixed layouts.",["pkg/etx"],[gram,lex],None,["the parsed tree"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
