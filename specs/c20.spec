# Routes: how a request finds its route and its parameters, and how it is answered.
logic quoteMeta(string) string
extern regexp.QuoteMeta ! s -> r
  ensures r == quoteMeta(s)
  opt pure
# the pattern of a compiled expression
logic rxText(ref) string
extern regexp.Compile ! s -> re err
  ensures err == nil ==> re != nil && rxText(re) == s
  opt pure
extern regexp.MustCompile ! s -> re
  ensures re != nil && rxText(re) == s
  opt pure
# The placeholders of a path and the literal text around them, defined by the expression {([^}]+)}
macro placeholderRx(): string = "{([^}]+)}"
logic phCount(string) int
logic phName(string, int) string
logic phLiteral(string, int) string
axiom ph-count{phCount} forall s: string :: {phCount(s)} phCount(s) >= 0
extern (*regexp.Regexp).FindAllStringSubmatch ! re s n -> r
  ensures rxText(re) == placeholderRx() && n < 0 ==> len(r) == phCount(s) && forall i: int :: {elems(r)[i]} off(r) <= i && i < off(r) + len(r) ==> allocated(elems(r)[i]) && len(elems(r)[i]) == 2 && elems(elems(r)[i])[off(elems(r)[i]) + 1] == phName(s, i - off(r))
  opt pure
axiom ph-split{reSplitCount} forall re: ref; s: string :: {reSplitCount(re, s)} rxText(re) == placeholderRx() ==> reSplitCount(re, s) == phCount(s) + 1
axiom ph-parts{reSplitPart} forall re: ref; s: string; i: int :: {reSplitPart(re, s, i)} rxText(re) == placeholderRx() ==> reSplitPart(re, s, i) == phLiteral(s, i)
axiom cat-assoc{strCat} forall a, b, c: string :: {(a + b) + c} (a + b) + c == a + (b + c)

# What an output and its parsers answer (assumed of every implementation)
logic outHasParam(any, string) bool
logic outParser(any, string) any
logic parserPrimitive(any) bool
logic parserPattern(any) string
logic outPayload(any) ref
logic outContentType(any) string
iface output.Output.HasParameter ! o n -> r
  ensures r <==> outHasParam(o, n)
  opt pure
iface output.Output.GetParameterParser ! o n -> p err
  ensures err == nil ==> p != nil && p == outParser(o, n)
  opt pure
iface output.Output.ExpectedPayloadType ! o -> r
  ensures r == outPayload(o)
  opt pure
iface output.Output.ResponseType ! o -> r
  ensures r == outContentType(o)
  opt pure
iface parser.Parser.Primitive ! p -> r
  ensures r <==> parserPrimitive(p)
  opt pure
iface parser.Parser.GetRegexpPattern ! p -> r
  ensures r == parserPattern(p)
  opt pure
iface parser.Parser.Name ! p -> r
  opt pure

# pathPattern(o, path, k): the pattern of the path up to its k-th placeholder: literal text quoted, the pattern of each placeholder's own parser in a group
logic pathPattern(any, string, int) string
axiom path-start{pathPattern} forall o: any; s: string :: {pathPattern(o, s, 0)} pathPattern(o, s, 0) == quoteMeta(phLiteral(s, 0))
axiom path-next{pathPattern} forall o: any; s: string; k: int :: {pathPattern(o, s, k), phName(s, k - 1)} k > 0 ==> pathPattern(o, s, k) == pathPattern(o, s, k - 1) + ("(" + (parserPattern(outParser(o, phName(s, k - 1))) + (")" + quoteMeta(phLiteral(s, k)))))

func (*service.Http).createPathRegexp ! s route out -> re params err
  prop C20
  requires[output] out != nil
  ensures[own-names-in-order] err == nil ==> len(params) == phCount(route.Path) && forall i: int :: {elems(params)[i]} off(params) <= i && i < off(params) + len(params) ==> elems(params)[i] == phName(route.Path, i - off(params))
  ensures[literal-text-and-own-parsers] err == nil ==> re != nil && rxText(re) == "^" + (pathPattern(out, route.Path, phCount(route.Path)) + "$")
  ensures[primitive-parsers-only] err == nil ==> forall i: int :: {phName(route.Path, i)} 0 <= i && i < phCount(route.Path) ==> parserPrimitive(outParser(out, phName(route.Path, i)))
  invariant fresh(params) && off(params) == 0 && len(params) == phCount(routeConfig.Path)
  invariant forall j: int :: {elems(params)[j]} 0 <= j && j <= rangeindex ==> elems(params)[j] == phName(routeConfig.Path, j)
  invariant 1 <= partIndex && partIndex <= len(parts) && len(parts) == phCount(routeConfig.Path) + 1
  invariant[path] path == pathPattern(output, routeConfig.Path, partIndex - 1)
  invariant forall i: int :: {phName(routeConfig.Path, i)} 0 <= i && i < partIndex - 1 ==> parserPrimitive(outParser(output, phName(routeConfig.Path, i)))
  modifies nothing

# --- finding the route
logic rxMatches(string, string) bool
logic rxSub(string, string, int) string
logic rxGroups(string) int
extern (*regexp.Regexp).MatchString ! re s -> r
  ensures r <==> rxMatches(rxText(re), s)
  opt pure
extern (*regexp.Regexp).FindStringSubmatch ! re s -> r
  ensures rxMatches(rxText(re), s) ==> len(r) == rxGroups(rxText(re)) + 1 && rxGroups(rxText(re)) >= 0 && forall i: int :: {elems(r)[i]} off(r) <= i && i < off(r) + len(r) ==> elems(r)[i] == rxSub(rxText(re), s, i - off(r))
  ensures !rxMatches(rxText(re), s) ==> len(r) == 0
  opt pure


extern (net/http.Header).Get ! h n -> r
  opt pure

macro routeListed(s: *service.Http, a: int): bool = off(s.routes) <= a && a < off(s.routes) + len(s.routes)
macro validRoutes(s: *service.Http): bool = forall a: int :: {elems(s.routes)[a]} routeListed(s, a) ==> validRoute(elems(s.routes)[a])
macro validRoute(r: *service.httpRoute): bool = r != nil && r.path != nil && r.output != nil && rxGroups(rxText(r.path)) == len(r.parameters)
macro rightMethod(r: *service.httpRoute, q: *net/http.Request): bool = if outPayload(r.output) == nil then q.Method == "GET" else q.Method == "POST"
macro pathMatches(r: *service.httpRoute, q: *net/http.Request): bool = rxMatches(rxText(r.path), q.URL.Path)

func (*service.Http).getMatchingRoute ! s q -> r
  prop C20 C21
  requires[request] q != nil && q.URL != nil && validRoutes(s)
  ensures[a-configured-route] r != nil ==> exists a: int :: {elems(s.routes)[a]} routeListed(s, a) && elems(s.routes)[a] == r
  ensures[it-matches] r != nil ==> pathMatches(r, q) && rightMethod(r, q)
  ensures[the-first-one] forall a: int :: {elems(s.routes)[a]} routeListed(s, a) && outPayload(elems(s.routes)[a].output) == nil && q.Method == "GET" && pathMatches(elems(s.routes)[a], q) ==> r != nil && exists b: int :: {elems(s.routes)[b]} routeListed(s, b) && b <= a && elems(s.routes)[b] == r
  invariant forall a: int :: {elems(s.routes)[a]} off(s.routes) <= a && a <= off(s.routes) + rangeindex && outPayload(elems(s.routes)[a].output) == nil && q.Method == "GET" ==> !pathMatches(elems(s.routes)[a], q)
  opt pure

# --- the parameters
logic queryHas(ref, string) bool
logic queryFirst(ref, string) string
extern (*net/url.URL).Query ! u -> r
  ensures[values] r != nil && forall k: string :: {keys(r)[k]} {vals(r)[k]} (keys(r)[k] <==> queryHas(u, k)) && (keys(r)[k] ==> len(vals(r)[k]) > 0 && elems(vals(r)[k])[off(vals(r)[k])] == queryFirst(u, k))
  opt pure
macro named(r: *service.httpRoute, n: string): bool = exists a: int :: {elems(r.parameters)[a]} off(r.parameters) <= a && a < off(r.parameters) + len(r.parameters) && elems(r.parameters)[a] == n

func (*service.Http).getParams ! s route u -> params
  prop C20
  requires[matched] validRoute(route) && u != nil && rxMatches(rxText(route.path), u.Path)
  ensures[placeholders] forall a: int :: {elems(route.parameters)[a]} off(route.parameters) <= a && a < off(route.parameters) + len(route.parameters) && (forall b: int :: {elems(route.parameters)[b]} a < b && b < off(route.parameters) + len(route.parameters) ==> elems(route.parameters)[b] != elems(route.parameters)[a]) ==> keys(params)[elems(route.parameters)[a]] && vals(params)[elems(route.parameters)[a]] == rxSub(rxText(route.path), u.Path, a - off(route.parameters) + 1)
  ensures[query-otherwise] params != nil && forall k: string :: {keys(params)[k]} {vals(params)[k]} !named(route, k) ==> (keys(params)[k] <==> queryHas(u, k)) && (keys(params)[k] ==> vals(params)[k] == queryFirst(u, k))
  invariant params != nil && fresh(params)
  invariant[!outputMatches] forall k: string :: {keys(params)[k]} {vals(params)[k]} keys(params)[k] ==> queryHas(u, k) && vals(params)[k] == queryFirst(u, k)
  invariant[!outputMatches] forall k: string :: {keys(params)[k]} {visited(k)} queryHas(u, k) && visited(k) ==> keys(params)[k]
  invariant[outputMatches] forall k: string :: {keys(params)[k]} {vals(params)[k]} !named(route, k) ==> (keys(params)[k] <==> queryHas(u, k)) && (keys(params)[k] ==> vals(params)[k] == queryFirst(u, k))
  invariant[outputMatches] forall a: int :: {elems(route.parameters)[a]} off(route.parameters) <= a && a <= off(route.parameters) + rangeindex && (forall b: int :: {elems(route.parameters)[b]} a < b && b <= off(route.parameters) + rangeindex ==> elems(route.parameters)[b] != elems(route.parameters)[a]) ==> keys(params)[elems(route.parameters)[a]] && vals(params)[elems(route.parameters)[a]] == rxSub(rxText(route.path), u.Path, a - off(route.parameters) + 1)
  modifies nothing
