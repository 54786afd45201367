# The HTTP answer.
axiom json-type{strCat} "application/json" + "; charset=UTF-8" == "application/json; charset=UTF-8"
logic headerOf(any) int
iface net/http.ResponseWriter.Header ! w -> h
  ensures h == headerOf(w) && h != nil
  opt pure
extern (net/http.Header).Set ! h n v
  requires[header] h != nil
  ensures n == "Content-Type" ==> contentType[h] == v
  ensures n != "Content-Type" ==> contentType[h] == old(contentType[h])
  modifies contentType[h]
iface net/http.ResponseWriter.WriteHeader ! w status
  ensures answers == old(answers) + 1 && answeredStatus == status && (answeredOk <==> status == 200) && answeredType == contentType[headerOf(w)]
  modifies answers, answeredStatus, answeredOk, answeredType
iface net/http.ResponseWriter.Write ! w p -> n err
  requires[status-first] answers > 0
  ensures answeredOk ==> sentDocs == old(sentDocs) + 1 && sentDoc == docOf(base(p)) && errDocs == old(errDocs)
  ensures !answeredOk ==> errDocs == old(errDocs) + 1 && sentDocs == old(sentDocs) && sentDoc == old(sentDoc)
  modifies sentDocs, sentDoc, errDocs
logic marshalled(any) bool
extern encoding/json.Marshal ! v -> b err
  ensures[texts-can-be-encoded] is(v, "map[string]any") && (forall k: string :: {keys(as(v, "map[string]any"))[k]} keys(as(v, "map[string]any"))[k] ==> is(vals(as(v, "map[string]any"))[k], "string")) ==> err == nil
  ensures err == nil ==> docOf(base(b)) == v
  opt pure

func (*service.Http).sendErrorResponse ! s w status err -> r
  prop C21
  requires[response] w != nil && err != nil && s.config != nil && s.config.ErrorsType == "application/json" && answers >= 0
  ensures[answered-once] answers == old(answers) + 1 && answeredStatus == status
  ensures[an-error-document] status != 200 ==> !answeredOk && errDocs == old(errDocs) + 1 && sentDocs == old(sentDocs) && sentDoc == old(sentDoc)
  ensures[json] answeredType == "application/json; charset=UTF-8"
  modifies answers, answeredOk, sentDocs, sentDoc, errDocs, answeredStatus, answeredType, contentType

# Assumed of every output (proved of JsonArray.Handle and JsonObject.Handle)
iface output.Output.Handle ! o params payload sendError sendSucces -> r
  requires[handlers] sendError != 0 && sendSucces != 0
  ensures[answered-once] answers == old(answers) + 1
  ensures[one-document] answeredOk ==> sentDocs == old(sentDocs) + 1 && errDocs == old(errDocs) && answeredStatus == 200
  ensures[no-document-with-an-error] !answeredOk ==> sentDocs == old(sentDocs) && errDocs == old(errDocs) + 1 && (answeredStatus == 404 || answeredStatus == 500)
  modifies rcPos, rcBroken, itErr, ioErr, itPos, itBroken, answers, answeredOk, answeredErr, sentDocs, sentDoc, errDocs, answeredStatus, answeredType, contentType

functype net/http.HandlerFunc ! self w q
  requires[request] w != nil && q != nil && q.URL != nil && answers >= 0
  ensures[answered-once] answers == old(answers) + 1
  ensures[status] answeredStatus == 200 || answeredStatus == 404 || answeredStatus == 500
  ensures[an-error-is-no-success] answeredOk <==> answeredStatus == 200
  ensures[one-document] answeredOk ==> sentDocs == old(sentDocs) + 1 && errDocs == old(errDocs)
  ensures[one-error-document] !answeredOk ==> errDocs == old(errDocs) + 1 && sentDocs == old(sentDocs)
  modifies rcPos, rcBroken, itErr, ioErr, itPos, itBroken, answers, answeredOk, answeredErr, sentDocs, sentDoc, errDocs, answeredStatus, answeredType, contentType

func (*service.Http).getHandlerFunc ! s -> h
  prop C21
  requires[configured] validRoutes(s) && s.config != nil && s.config.ErrorsType == "application/json" && s.config.Logger != nil
  ensures[handler] h != 0
  modifies nothing
  closure self net/http.HandlerFunc
    closureinv[configured] service != nil && validRoutes(service) && service.config != nil && service.config.ErrorsType == "application/json" && service.config.Logger != nil
    assert[no-route-is-404] (forall a: int :: {elems(service.routes)[a]} routeListed(service, a) ==> !(rightMethod(elems(service.routes)[a], q) && pathMatches(elems(service.routes)[a], q))) ==> answeredStatus == 404
  closure self func(error)(error)
    closureinv[response] response != nil && service != nil && service.config != nil && service.config.ErrorsType == "application/json" && answers >= 0
  closure self func()(io.Writer)
    closureinv[response] response != nil && route != nil && route.output != nil
    assert[content-type] answeredType == outContentType(route.output) + "; charset=UTF-8"
