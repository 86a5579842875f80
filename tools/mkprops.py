"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def m(*a):
    return [{"name": x, "where": y} for x, y in a]

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note="", ):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": mech, "hook_needed": None}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, note))

I, H_, C, S, F, PR = "inputs", "histories", "configurations", "schedules", "fault_sequences", "programs"

prop("C01", "Routing: static before pattern before wildcard, one segment at a time",
 "For every set of registered hosts and resources and every request, the host is the static one equal to the request's host name, otherwise the first pattern host in the order of registration which matches it, otherwise the root resource takes the request; below it, each path segment selects the static child that equals it, otherwise the first matching pattern child in the order of registration, otherwise the wildcard child. "
 "The choice at a segment is final: siblings are not tried afterwards. "
 "A request whose next segment has no matching child, without a subtree handler above it, ends in the not-found handler.",
 [H_, I, C], "every tree built by any sequence of registrations, every host name (with and without port), every path",
 "the tests register one tree in one order and try a dozen URLs; precedence depends on the combination and order of the siblings",
 ["responder.go", "host.go", "resource.go", "router.go"],
 m(("passing of a request to the next responder", "responder.go passRequest; router.go passRequest"), ("children by kind", "responder.go replaceResource, keepResourceOrItsChildResources")),
 ["ServeHTTP of Router, Host and Resource: which handler runs, with which values"])
prop("C02", "Subtree handlers get what nobody below answers, with the remaining path",
 "A request that matches no deeper resource is answered by the nearest responder on its way that is configured as a subtree handler (as not found when that one has no handlers); responders without that configuration never answer a request below themselves. "
 "The handler sees the part of the path below the answering responder, in its escaped form, and the host and path values matched on the way.",
 [H_, I, C], "every tree, every subset of the responders that are subtree handlers, every path deeper than the tree",
 "tests check single subtree handlers; nesting, siblings, dormant ones and escaped or unclean remaining paths are combinations",
 ["responder.go", "host.go", "resource.go", "utils.go"],
 m(("fallback to the subtree handler", "host.go, resource.go handleOrPassRequest"), ("remaining path", "utils.go RemainingPath")),
 ["Args.RemainingPath, Args.CurrentResource, Args.HostPathValues in handlers and middlewares"])
prop("C03", "A template matches exactly the strings of its form, with the right values",
 "A template matches a string only if the whole string is the concatenation of its static segments and values that fully match their patterns; a value name that repeats has the same value everywhere. "
 "The wildcard takes exactly what the other segments leave, also in the middle. "
 "A failed match adds nothing to the values collected so far, neither directly nor while a request looks for its responder.",
 [I], "every template of static, pattern and wildcard segments and every string",
 "tests list templates and strings; repeated names, alternations, anchors and values in front of or behind the wildcard combine",
 ["template.go", "responder.go"],
 m(("matching", "template.go Match"), ("anchoring of patterns", "template.go parse, anchorable, appendDynamicSegmentTo")),
 ["Template.Match", "Args.HostPathValues"])
prop("C04", "Templates parse, print and compare consistently",
 "Parsing accepts exactly the documented template syntax (names, escapes, braces inside patterns, at most one wildcard, patterns that are valid by themselves, no contradicting repeated patterns) and reports the name, value names, kind and textual forms that follow from it. "
 "Two templates are the same, differ in the name, differ in value names, or are different, exactly as their segments say, whichever of them is asked.",
 [I, PR], "every template text and every pair of templates",
 "the grammar with escapes, braces, character classes and repeated names has unboundedly many shapes; tests list about a hundred",
 ["template.go"],
 m(("parser", "template.go parse, staticSegment, dynamicSegment, templateNameAndContent"), ("comparison", "template.go SimilarityWith"), ("text forms", "template.go Content, UnescapedContent, String")),
 ["TryToParse, Parse, Template methods, rejected and accepted registrations"])
prop("C05", "Applying a template or building a URL gives what matches back, or an error",
 "Applying values to a template gives the text with every value in its place, or an error when a value is missing (unless told to ignore it) or when it isn't a full match of its pattern; a text that was matched is restored from its values, also when the wildcard's part of it is empty. "
 "A responder's URL has its scheme, host, the segments from the top down to it, and its trailing slash, with special characters escaped so that each value stays one segment.",
 [I, H_, C], "every template, every set of values, every responder of every tree, registered or not",
 "round trips quantify over all values and templates; tests check a few literal URLs",
 ["template.go", "utils.go", "responder.go"],
 m(("application", "template.go TryToApply, Apply"), ("URL of a responder", "utils.go responderURL; responder.go URL")),
 ["TryToApply, Apply, URL"])
prop("C06", "Requests don't affect each other",
 "What a request observes and what it is answered with depends only on the registered responders and on the request itself: not on the requests served before it (including ones whose handler or middleware panicked), not on the requests being served at the same time, and not on a request made from inside a handler. "
 "Values, arguments set by middlewares and the current responder of one request are never visible in another.",
 [S, H_, F], "every interleaving of any number of requests, every history of earlier requests, panics included",
 "tests send one request at a time and start with a fresh state; per-request state is pooled and reused",
 ["utils.go", "router.go", "host.go", "resource.go", "middleware.go"],
 m(("pool of the request state", "utils.go getArgs, putArgsInThePool, getArgsFromThePool"), ("entries", "ServeHTTP of Router, Host, Resource"), ("net/http adapters", "middleware.go Mw; requesthandler.go Hr")),
 ["all events of overlapping requests"], [("pools", "recycled per-request state", "utils.go")])
prop("C07", "Secure responders never answer over an insecure connection",
 "A request without TLS is never answered by the handlers of a host or resource that was registered as secure: it is answered as not found, or, when the responder is configured to redirect insecure requests, with a permanent redirect to the same URL under https. "
 "Security of one responder doesn't change what its children or siblings do, and secure requests are served by responders that aren't secure.",
 [C, H_, I], "every combination of configurations, also when a configuration is changed or a prebuilt tree is registered, every entry point",
 "tests check one responder with one configuration; the decision is combined with trailing slash, unclean path, subtree and redirect settings",
 ["host.go", "resource.go", "config.go", "responder.go"],
 m(("decision", "host.go, resource.go handleOrPassRequest"), ("flags", "config.go asFlags; responder.go configure, checkForConfigCompatibility")),
 ["which handler runs and the response to an insecure request"])
prop("C08", "Trailing slashes and unclean paths follow the responder's configuration",
 "A request whose path differs from the responder's template in the trailing slash is redirected to the right form, answered as not found when the responder is strict, and handled when it is lenient; a path with empty, dot or dot-dot segments is worked with in its clean form and redirected to it unless the responder is lenient on unclean paths. "
 "Nothing is redirected or rejected on account of the path when it already has the right form, and the root has no trailing slash policy.",
 [C, I], "every combination of the configuration fields, every clean or unclean, escaped or plain path, for hosts and resources as ends or as subtree handlers",
 "the decision table has hundreds of rows (configuration × form of path × kind of responder), tests check tens",
 ["host.go", "resource.go", "utils.go", "config.go"],
 m(("policy", "host.go, resource.go handleOrPassRequest"), ("cleaning and slash handling", "utils.go getArgs, pathHasTrailingSlash, setURLPath, addTrailingSlash, removeTrailingSlash")),
 ["the response and the handler that ran"])
prop("C09", "Automatic redirects lead to the responder's own URL and end there",
 "An automatic redirect keeps the request's host, query and the escaping of its path, changes only the scheme, the trailing slash and the unclean parts, and uses the responder's permanent redirect code. "
 "Following it reaches the same responder in at most one more step and is then answered without another automatic redirect.",
 [C, I], "every configuration and every request that is redirected automatically",
 "the target is computed from five inputs in two places; tests compare a few literal targets and don't follow them",
 ["host.go", "resource.go", "utils.go", "requesthandler.go"],
 m(("redirect target", "host.go, resource.go handleOrPassRequest; utils.go cloneRequestURL, setURLPath"), ("redirect codes", "requesthandler.go PermanentRedirectCode; responder.go PermanentRedirectCode")),
 ["the Location header or the arguments of the redirect handler; the request that follows it"])
prop("C10", "A method runs its own handler; others get 405 with the right Allow list",
 "At the responder that answers, a request is handled by the handler last set for its method, by nothing else; OPTIONS is answered with the list of the handled methods unless it has its own handler. "
 "A method without a handler gets the not-allowed handler, by default 405 with an Allow header that lists exactly the methods with handlers. "
 "A responder without any method handler answers as not found.",
 [H_, I, PR], "every history of setting handlers one by one, in lists, by implementations, in any order and any letter case; every method",
 "handlers are kept in a sorted structure that every setting changes; tests set a few methods in one order",
 ["requesthandler.go", "utils.go"],
 m(("sorted handlers", "requesthandler.go _MethodHandlerPairs set, get, sort"), ("setting and detection", "requesthandler.go setHandlerFor, detectHTTPMethodHandlersOf"), ("dispatch", "requesthandler.go handleRequest, handleOptionsHTTPMethod, handleNotAllowedHTTPMethod")),
 ["the handler that ran, status code and Allow header"])
prop("C11", "Every request is answered exactly once",
 "Every request ends with exactly one of: one run of one handler, one redirect, one run of the not-found handler, or one bad request or method not allowed response. "
 "A handler or middleware that reports a request as not handled passes it on (to the subtree handler above or to the not-found handler), one that reports it as handled ends it, and what each middleware gets back is what the inner part reported.",
 [PR, C, I], "every combination of handlers and middlewares that report handled or not handled, every tree and request",
 "handlers of the tests return true; what happens after false depends on where in the tree and in which wrapper it is returned",
 ["host.go", "resource.go", "router.go", "responder.go", "requesthandler.go"],
 m(("protocol", "handleOrPassRequest of Host and Resource; passRequest"), ("entries", "ServeHTTP of Router, Host, Resource"), ("not found handler", "requesthandler.go")),
 ["events of handlers and middlewares with their results, the number of responses"])
prop("C12", "Middlewares run in order and only around what they wrap",
 "Each middleware runs around exactly the part it was registered for (the request passer of the router, a host or a resource; the request handler; the handlers of given methods; redirect and not-found handlers), and nowhere else. "
 "Middlewares that wrap the same part are nested in the order of wrapping, the first one innermost; wrapping a whole subtree or all methods wraps each of its members once.",
 [H_, PR, C], "every history of wrapping and setting calls, every request that passes the wrapped parts",
 "order and scope depend on the history (setting a handler after wrapping, wrapping twice, wrapping subtrees); tests check single calls",
 ["responder.go", "router.go", "requesthandler.go", "middleware.go"],
 m(("wrapping", "responder.go WrapRequestPasser, WrapRequestHandler, WrapHandlerOf, WrapSubtree...; router.go WrapAll..."), ("method handlers", "requesthandler.go wrapHandlerOf"), ("traversal", "utils.go traverseAndCall; middleware.go wrapEveryHandlerOf")),
 ["in and out events of every middleware"])
prop("C13", "Names and templates stay unique however the tree is built",
 "In no history of accepted calls do two siblings (or two hosts) have similar templates or the same name, and in no URL does a name or a value name occur twice. "
 "A call that would cause this is rejected, and a call that wouldn't isn't rejected for this reason.",
 [H_], "every sequence of creating, finding and registering calls on the router, hosts and resources",
 "whether a call must be rejected depends on everything registered before, above and below; tests check pairs of calls",
 ["responder.go", "router.go", "template.go"],
 m(("checks", "responder.go validate, checkNamesAreUniqueInTheURL, checkChildResourceNamesAreUniqueInURL, segmentResources"), ("similarity", "template.go SimilarityWith"), ("hosts", "router.go hostWithTemplate, registerHost")),
 ["acceptance of each call, the tree afterwards"])
prop("C14", "Registering prebuilt hosts and resources puts everything in its place",
 "Registering a separately built host or resource (also under a prefix or by its own URL template) makes it and its whole subtree reachable at exactly the place its template and the prefix say, with its handlers, middlewares, configuration and data. "
 "When the place is taken by a responder without handlers, or the new one has none, the children are merged and the one with handlers stays; if both have handlers it is rejected, as is registration below itself or of a registered one.",
 [H_, PR], "every pair of trees, every prefix and every order of registration",
 "merging recurses over two trees of arbitrary shape; tests merge single resources",
 ["responder.go", "router.go", "resource.go", "host.go"],
 m(("merging", "responder.go keepResourceOrItsChildResources, passChildResourcesTo, replaceResource"), ("place", "responder.go RegisterResource, RegisterResourceUnder, validateURL, registerResourceUnder; router.go RegisterResource, RegisterResourceUnder, registerNewRoot, RegisterHost, replaceHost")),
 ["acceptance, the tree afterwards, parents and hosts, requests"])
prop("C15", "Lookups find exactly what is registered, and find-or-create never duplicates",
 "Asking for a registered host, resource, child, parent or router by template, path or name gives the one responder that is there, nothing if there is none, and an error if the template contradicts what is registered; asking doesn't add responders (it may count as the first use of a responder that had only been passed through, which fixes its configuration). "
 "Getting or creating a responder gives the existing one when it is there (as long as its URL properties don't conflict) and otherwise creates exactly the missing ones.",
 [H_, I], "every tree and every lookup, from every starting point",
 "agreement between a dozen lookup calls must hold in every reachable tree; tests look up what they've just created",
 ["responder.go", "router.go", "resource.go"],
 m(("lookup", "responder.go resourceWithTemplate, registeredResource, ChildResourceNamed; router.go registeredHost, registeredHostOrNamed, registered_Responder"), ("find or create", "responder.go Resource, pathSegmentResources; router.go Resource, Host, _Responder")),
 ["identity of the returned responders, the tree afterwards"])
prop("C16", "Configurations are what was asked for and never change by themselves",
 "A responder's configuration is the one given when it was created or first used, or last set, with the security and trailing slash that its URL template says; the root has no trailing slash properties. "
 "Asking for an existing responder with conflicting security, trailing slash or configuration is rejected and changes nothing; setting the configuration of a subtree changes exactly the responders in it that have none of their own.",
 [H_, C], "every history of creating, configuring and asking, with every combination of configuration fields",
 "256 configurations × find-or-create paths; tests check single settings",
 ["config.go", "responder.go", "router.go"],
 m(("flags", "config.go asFlags, asConfig"), ("compatibility", "responder.go configure, checkForConfigCompatibility"), ("setting", "responder.go SetConfiguration, SetConfigurationForSubtree; router.go SetConfigurationForAll")),
 ["Configuration() and the predicates of every responder after every call"])
prop("C17", "Explicit redirects and redirect handlers do what they were set to do",
 "A responder that redirects its requests answers them with the given URL and code, with the remaining path of the request appended once; one that redirects any request does so without looking further down, whatever else is configured. "
 "Redirects, automatic ones too, go through the responder's own redirect handler when it has one and otherwise through the common one, with the wrappers of that one only, and permanent codes are the responder's own or the common one.",
 [H_, C, I], "every order of setting redirects, codes, handlers and wrappers and every request to or below the responder",
 "joins of URLs with the remaining path and the choice of handler depend on configuration and history; tests check single cases",
 ["requesthandler.go", "responder.go", "host.go", "resource.go"],
 m(("redirectors", "responder.go RedirectRequestTo, RedirectAnyRequestTo; requesthandler.go redirector"), ("redirect handlers", "responder.go SetRedirectHandler, WrapRedirectHandler; requesthandler.go SetCommonRedirectHandler, WrapCommonRedirectHandler"), ("codes", "SetPermanentRedirectCode")),
 ["arguments of the redirect handlers, response code and Location"])
prop("C18", "Shared data and implementations belong to their responder",
 "A handler sees the shared data and the implementation of the responder that is handling the request, the ones last set; middlewares on the way see those of the responder being passed. "
 "Setting the data of a subtree sets exactly the responders in it without data of their own; setting an implementation makes exactly its handler methods the handlers of their HTTP methods and leaves the rest of the responder as it was.",
 [H_, PR], "every history of setting, every implementation type, every request",
 "visible data depends on the position in the chain and on earlier settings; tests read back what they set",
 ["responder.go", "requesthandler.go", "utils.go"],
 m(("shared data", "responder.go SetSharedData, SetSharedDataForSubtree; router.go SetSharedDataForAll"), ("implementation", "responder.go SetImplementation; requesthandler.go detectHTTPMethodHandlersOf"), ("arguments", "utils.go ResponderSharedData, ResponderImpl")),
 ["SharedData, Implementation, Args in handlers and middlewares"])
prop("C19", "net/http handlers and middlewares work like native ones",
 "An adapted net/http handler or middleware runs once at the place where the native one would, with the same request and response writer; handlers and middlewares inside a net/http middleware, and adapted handlers with arguments, see the same arguments of the same request, also when requests overlap. "
 "A net/http middleware that calls the next handler passes the request on; one that doesn't ends it as handled.",
 [PR, S, I], "every mixture of native and adapted handlers and middlewares, at every place, sequential and concurrent requests",
 "adapters pass the state through the request's context; mixing them with native ones and with concurrent requests multiplies cases",
 ["middleware.go", "requesthandler.go", "utils.go"],
 m(("adapters", "middleware.go Mw; requesthandler.go Hr, FnHr, HrWithArgs, FnHrWithArgs"), ("arguments from the context", "utils.go ArgsFrom")),
 ["events of adapted handlers and middlewares, ArgsFrom"])
prop("C20", "A rejected call leaves the tree as it was",
 "When a call that creates, registers or configures hosts and resources is rejected with an error, no responder has been added to, moved in or removed from the registered trees and no responder's handlers, configuration, data or middlewares have changed. "
 "This holds wherever the reason lies: in the template, in the configuration, in a name clash further down the path, or in the tree that is being registered. Two documented exceptions: failed merges of two prebuilt trees, and a setter at a URL (Set…At, Wrap…At, Redirect…At) whose URL is accepted and whose other argument isn't, which may leave the responder it created for the URL, without a handler.",
 [H_, F], "every call that is rejected, in every state",
 "tests check that an error is returned, not what the tree looks like afterwards",
 ["responder.go", "router.go", "requesthandler.go"],
 m(("creation below an existing responder", "responder.go segmentResources, pathSegmentResources, registerResourceUnder"), ("hosts", "router.go host, Host, ResourceUsingConfig, RegisterResource"), ("setters", "responder.go Set..., Wrap..., Redirect...")),
 ["the whole tree before and after each rejected call"])

LEVEL = ("Model checking with trace validation: TLC checks the invariants of the TLA+ specification in bounded models exhaustively, and every "
         "behaviour of these models plus random scenarios of the property's profile are executed by the real code and accepted by TLC as behaviours of "
         "the specification, step by step, with everything observed. Trusts the specification's reading of the documentation, the harness's "
         "observation of the code, TLC, and Go's standard library.")

def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for d, _ in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py setup",
           "checks": [], "not_applicable": []}
    for d, note in P:
        man["checks"].append({
            "property": d["id"],
            "quick_cmd": "python3 check.py %s quick" % d["id"],
            "thorough_cmd": "python3 check.py %s thorough" % d["id"],
            "technique": "TLA+ specification, TLC: bounded models checked exhaustively and replayed into the code; traces of the code validated",
            "level": "model_checking", "level_note": LEVEL + note})
    with open(os.path.join(H, "MANIFEST.json"), "w") as f:
        json.dump(man, f, ensure_ascii=False, indent=1)
        f.write("\n")

main()
