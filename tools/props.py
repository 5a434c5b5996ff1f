FLOW = 'predicate-sensitive forward dataflow analysis over SSA; every abstract path compared with a decision specification'
NOTE = ('Static, over all abstract paths of the functions concerned (loops widened to a fixpoint, user functions arbitrary). '
        'Trusted: go/types and x/tools SSA construction, the models of the standard functions named in DESIGN.md, and the specification itself.')

def P(id, title, statement, over, for_, why, files, mech, technique=FLOW, note=NOTE, state=None):
    return dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                technique=technique, note=note, state=state, **{'for': for_})

def N(id, title, statement, over, for_, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                reason=reason, state=None, **{'for': for_})

REQ = 'every request and every configuration of the responders'
SAMPLE = 'The tests send a few dozen requests to a handful of trees; the property ranges over every combination of request, path and configuration.'

PROPS = [
P('P01', 'Nothing of a request leaks into a later request through reused arguments',
  'The arguments object given to handlers is reused between requests. Whatever a request left in it - path, position, host and path values, flags, values set by handlers - is invisible to every later request: each piece of state is either set anew when the object is acquired or cleared before the object can be acquired again.',
  ['histories', 'inputs'], 'every sequence of requests, served by routers, hosts and resources',
  'A leak needs an earlier request that leaves a specific piece of state and a later one that reads it before it is set; the tests serve requests whose leftovers are overwritten.',
  ['utils.go', 'router.go', 'host.go', 'resource.go'],
  [('the pool of Args', 'utils.go: argsPool, getArgs, putArgsInThePool')]),
P('P02', "A request's arguments object is acquired once and given back exactly once",
  'Every exported serving entry point acquires one arguments object for the request, gives exactly that object back to the pool once on every way to its return, does not use, keep or share it afterwards, and nothing but the entry points acquires or gives back such objects.',
  ['schedules', 'histories'], 'every path through the entry points, every interleaving of concurrent requests',
  'An object that is given back twice or too early is shared by two requests only under particular schedules, which tests do not reach.',
  ['utils.go', 'router.go', 'host.go', 'resource.go', 'requesthandler.go'],
  [('entry points', 'Router.ServeHTTP, Host.ServeHTTP, Resource.ServeHTTP')],
  technique='typestate analysis of the pooled object over all abstract paths of the entry points'),
P('P03', 'Serving requests does not write state shared between requests',
  'While a request is being served, the package writes only to objects made for this request, to its own arguments object and to its response. It never writes to routers, hosts, resources, templates, handlers or package variables, so concurrent requests do not race through the package.',
  ['schedules', 'inputs'], 'every schedule of concurrent requests through a tree that is not being reconfigured',
  'A data race needs two requests at the same instruction; the tests serve requests one after another.',
  ['host.go', 'resource.go', 'responder.go', 'router.go', 'requesthandler.go', 'middleware.go', 'template.go', 'utils.go'],
  [('request receivers and passers, method handlers, adapters, matching', 'all functions that run while serving')],
  technique='effect (write-set) analysis: the origin of the target of every write on every abstract path of the serving functions'),
P('P04', 'Questions change nothing',
  "The exported methods of responders, routers and templates that only answer (names, templates, configurations, shared data, handlers, URLs, parents, children, comparison and application of templates) write only to objects they made for the answer; a list they return is never one that a responder or template still holds. Only looking a responder up by its URL may activate it if it's dormant. So questions can be asked while requests are served, and the asker may do with the answer what he wants.",
  ['schedules', 'histories'], 'every tree, every question, every schedule of concurrent requests and questions',
  'A question that writes shows only when it races with a request or a later call sees the change; a list that shares its array with the responder only when the asker changes the list or the responder appends to it.',
  ['responder.go', 'router.go', 'host.go', 'resource.go', 'template.go', 'requesthandler.go'],
  [('questions', 'responder.go: Name, Template, URL, Parent, ChildResources, HasChildResource, Configuration; router.go: Hosts, HostNamed, HasHost; template.go: ValueNames, SimilarityWith, Apply')],
  technique='interprocedural effect and ownership analysis: every write reachable from a question, and every returned list, is traced back to the allocation it belongs to'),
P('P05', 'The path a request is routed by is the cleaned, absolute request path',
  "A request is routed by the escaped path of its URL if that is not empty and by the path otherwise; a path longer than one byte is made absolute and cleaned with its trailing slash kept, whether cleaning changed it is remembered, and segments are unescaped only if the escaped path is used. The routing path doesn't change while the request is being routed.",
  ['inputs'], 'every request URL', SAMPLE, ['utils.go'],
  [('derivation of the routing path', 'utils.go: getArgs')]),
P('P06', 'A responder configured as secure never serves insecure requests',
  'No handler of a host or resource that is configured as secure gets a request that came without TLS: neither its HTTP method handlers nor its configured redirect run. Such a request gets to the not-found handler, or, if the responder redirects insecure requests, is redirected to the same URL with the https scheme.',
  ['inputs', 'configurations'], REQ, SAMPLE, ['host.go', 'resource.go'],
  [('request receivers', 'host.go, resource.go: handleOrPassRequest')]),
P('P07', 'Trailing slash policy: lenient, strict or redirect, for every responder',
  "When a responder would handle a request whose path's trailing slash differs from the responder's, a responder that is lenient on trailing slash handles it, a strict one gives it to the not-found handler, and otherwise the request is redirected to the path with the slash added or removed. The root path has no trailing slash to be checked.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['host.go', 'resource.go'],
  [('request receivers', 'host.go, resource.go: handleOrPassRequest')]),
P('P08', 'An unclean path is redirected to the clean one unless leniency is configured',
  'When a responder would handle a request whose path had to be cleaned, the request is redirected to the clean path unless the responder is lenient on unclean paths; a request whose path was clean is never redirected on this ground.',
  ['inputs', 'configurations'], REQ, SAMPLE, ['host.go', 'resource.go', 'utils.go'],
  [('request receivers', 'host.go, resource.go: handleOrPassRequest')]),
P('P09', 'Policy redirects go to the intended URL with the right code and handler',
  "The URL of a redirect made because of security, trailing slash or an unclean path equals the request's URL, with the request's host and scheme filled in, except for what the policies change, consistently in its path and escaped path. It's sent with the responder's permanent redirect code if set and the common one otherwise, through the responder's redirect handler if set and the common one otherwise, and exactly once.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['host.go', 'resource.go', 'utils.go', 'requesthandler.go'],
  [('request receivers', 'host.go, resource.go: handleOrPassRequest')]),
P('P10', 'A responder passes, handles, redirects or rejects a request as configured',
  "A responder asks its request passer exactly once if path segments are left, and returns if the passer handled the request. Otherwise - or if no segments are left - its configured redirect gets the request if there is one, its request handler if it has HTTP method handlers, and the not-found handler if it has neither; with segments left it does so only if it's a subtree handler. Whichever runs sees the responder itself as the current one.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['host.go', 'resource.go'],
  [('request receivers', 'host.go, resource.go: handleOrPassRequest')]),
P('P11', 'Child selection: static resources, then patterns in order, then the wildcard',
  "A request is passed to at most one child: the static child whose template equals the unescaped next path segment, else the first child with a pattern, in their order, whose template matches it, else the wildcard child. The child gets the request with the values of its template added to those of its ancestors, and is the current responder meanwhile.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['responder.go', 'router.go'],
  [('request passer', 'responder.go: passRequest')]),
P('P12', 'Unmatched segments lead to not found, bad escapes to 400, once',
  'If no child matches the next path segment, the request gets to the not-found handler exactly once, unless an ancestor or the responder itself is a subtree handler, in which case it is reported as not handled so that the subtree handler gets it. If the segment cannot be unescaped, exactly one response with the status code 400 is sent and the request counts as handled.',
  ['inputs', 'configurations'], REQ, SAMPLE, ['responder.go'],
  [('request passer', 'responder.go: passRequest')]),
P('P13', 'After a child returns, the position in the path and the values are restored',
  "After a request passer returns, the position in the request's path is the one it started with, so that the remaining path a responder sees starts right after its own segment. If the child didn't handle the request, the host and path values are those from before the child was tried.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['responder.go'],
  [('request passer', 'responder.go: passRequest')]),
P('P14', 'Hosts are selected by host name: static, then patterns in order, then root',
  "A router selects the host by the request's host name without the port: the static host with that name, else the first pattern host, in their order, whose template matches it; if there's none, the router's root resource gets the request if it exists, and the not-found handler otherwise. The selected responder is the current one and gets the request exactly once.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['router.go'],
  [("router's request passer", 'router.go: passRequest')]),
P('P15', 'A request gets to the handler of its HTTP method, or of not allowed methods',
  "A responder's requests are dispatched by its own table of HTTP method handlers: a request gets, exactly once, to the handler set for its method; without one, to the configured handler of not allowed methods; without that, it is answered with the status code 405. If the table has no handlers at all, the request gets to the not-found handler. Whenever a responder gets a table, its request handler becomes that table's dispatch.",
  ['inputs', 'configurations'], 'every request method and every table of handlers',
  'The tests use a handful of methods and tables; the dispatch has to be right for every combination, and for every operation that gives a responder its table.',
  ['requesthandler.go', 'responder.go'],
  [('dispatch', 'requesthandler.go: handleRequest'), ('binding', 'responder.go: setRequestHandlerBase and others that store a table')]),
P('P16', 'The default 405 and OPTIONS answers list exactly the allowed HTTP methods',
  'The default answer to a method without a handler has the status code 405 and the default answer to OPTIONS has the status code 200. Both have, before the status code is written, exactly one Allow header that lists every HTTP method with a handler once, in the order of the table and separated by a comma and a space. AllowedHTTPMethods returns the same list.',
  ['configurations'], 'every table of handlers',
  'The header has to be complete for tables of every size and content; the tests look at a few.',
  ['requesthandler.go'],
  [('default answers', 'requesthandler.go: handleNotAllowedHTTPMethods, handleOptionsHTTPMethod'), ('list', 'requesthandler.go: AllowedHTTPMethods')]),
P('P17', 'The table of HTTP method handlers: setting, finding and detecting handlers',
  'Looking a method up finds its handler exactly if there is one, whatever the size of the table. Setting a handler replaces the one the method had or adds it and keeps the table sorted. SetHandlerFor sets the handler for every listed method, or for not allowed methods if the list is exactly "!". An implementation\'s methods named HandleX with the signature of a handler become the handlers of X in upper case, HandleNotAllowedMethod the one of not allowed methods. OPTIONS gets a default handler unless it has one.',
  ['inputs', 'configurations'], 'every table, every list of methods and every implementation',
  'The lookup switches its way of searching and has to find every method in every table; tests look at small tables.',
  ['requesthandler.go', 'utils.go'],
  [('table', 'requesthandler.go: _MethodHandlerPairs.get, set, sort'), ('setting', 'requesthandler.go: setHandlerFor, handlerOf'), ('detection', 'requesthandler.go: detectHTTPMethodHandlersOf')]),
P('P18', 'The tree stays consistent: children are where requests look, parents match',
  'After every successful registration a host or resource is in its parent\'s container for its kind of template, under the key that requests are looked up by, and its parent is exactly that responder; hosts and root resources have only routers as parents. A registered responder without handlers is replaced in place by a new one with the same template, a new one without handlers hands its children to the registered one, in both cases no child is lost and the replaced responder is detached; two responders with handlers and the same template are rejected. Nothing else changes these links.',
  ['histories', 'configurations'], 'every sequence of registrations, every kind of template and every combination of dormant and handling responders',
  'The tests register a fixed set of trees; losing or misplacing a child needs a particular combination of kinds, order and dormant responders.',
  ['responder.go', 'router.go'],
  [('registration of resources', 'responder.go: registerResource, replaceResource, passChildResourcesTo, keepResourceOrItsChildResources, setParent'),
   ('registration of hosts and root resources', 'router.go: registerHost, replaceHost, RegisterHost, registerNewRoot, initializeRootResource')]),
P('P19', 'Names and templates are unique among siblings and names within a URL',
  'A responder or host gets into the tree only after its name was compared with the names of its siblings, and its name and value names, and those of all its descendants, with the names and value names of every responder above it up to the host or root. A search by template finds a child only if its template is the same, reports a conflict only if the names of an otherwise same template differ, and finds nothing only after every child that could have the template was considered; a search by name finds a child only if it has the name, and nothing only after every child was considered.',
  ['inputs', 'histories'], 'every template, every tree, every sequence of registrations',
  'A duplicate is only possible where a certain shape of tree meets a certain order of registrations; the tests try a few trees.',
  ['responder.go', 'router.go'],
  [('searches and checks of names', 'responder.go: resourceWithTemplate, ChildResourceNamed, checkNamesAreUniqueInTheURL, checkChildResourceNamesAreUniqueInURL, validate, segmentResources; router.go: hostWithTemplate, HostNamed'),
   ('registration', 'responder.go, router.go: Resource, ResourceUsingConfig, RegisterResource, RegisterResourceUnder, Host, HostUsingConfig, RegisterHost')]),
P('P20', 'A responder that may not be registered is rejected before anything changes',
  'Registering a responder rejects it, with a panic or an error and before anything in the tree or the responder is changed, when it is nil, when it is registered already, when it is a root resource that would get a parent other than a router, or when it is the responder it would be registered under or one above that.',
  ['histories', 'inputs'], 'every tree and every argument of every method that registers a host or a resource',
  'A resource that gets below itself makes every later walk up the tree endless; only particular sequences of registrations lead there.',
  ['responder.go', 'router.go'],
  [('registration', 'responder.go: RegisterResource, RegisterResourceUnder, isBelow; router.go: RegisterResource, RegisterResourceUnder, RegisterHost, registerNewRoot')]),
P('P21', 'Resources that a URL names are created where the URL says, once',
  'Creating a responder by URL creates, for each segment of the path that has no resource yet, exactly one resource with that segment as its template, registers each exactly once - the first new one under the last one that existed, each other under the one before it - and returns the one for the last segment; a host that is not registered is created and registered once. A resource registered under a prefix ends up under the last segment of that prefix, and whatever is registered along with it ends up on the same way.',
  ['inputs', 'histories'], 'every template of a URL or path and every tree that some, none or all of its segments exist in',
  'What is new and what exists differs with every tree and every length of the path; the tests build a few trees segment by segment.',
  ['responder.go', 'router.go'],
  [('creation of resources', 'responder.go: pathSegmentResources, registerResourceUnder, Resource, ResourceUsingConfig'), ('creation of hosts', 'router.go: host, _Responder, Host, HostUsingConfig, Resource, ResourceUsingConfig')]),
P('P22', 'A call succeeds only if everything it had to do succeeded',
  'No function of the package reports success after something it called failed: every error that it gets from another function of the package, from a callback or from the standard library is returned, turned into a panic, or looked at - the function goes on only where it knows that the error is nil, that it is one of a certain kind, or that the callee returned a result it only returns without an error. What fails while a request is being answered is answered instead, and is not part of this.',
  ['inputs', 'histories'], 'every call of every function that can fail',
  'An error that is dropped shows only with the input for which the callee fails, and the tests do not make every callee fail at every call site.',
  ['responder.go', 'router.go', 'template.go', 'utils.go', 'requesthandler.go', 'host.go', 'resource.go'],
  [('calls that can fail', 'all functions of the package')]),
P('P23', 'A configuration is applied and reported property by property',
  'Each property of a Config sets exactly the behaviour it stands for and what its documentation says it implies: RedirectsInsecureRequest implies security, HandlesThePathAsIs both leniencies. After SetConfiguration every property of the responder is what the configuration says, except that security and a trailing slash stay once they are set and that the root has no trailing slash policy. Configuration and the single queries (IsSecure, HasTrailingSlash, ...) report exactly the properties that were set.',
  ['inputs', 'configurations'], 'every configuration, every previous configuration of the responder',
  'There are 256 configurations on top of 256 previous ones, and each property is reported in two ways; the tests use a dozen.',
  ['config.go', 'responder.go'],
  [('configuration flags', 'config.go: Config.asFlags, _ConfigFlags'), ('configuration of responders', 'responder.go: SetConfiguration, Configuration, Is...')]),
P('P24', 'Security and trailing slash of a responder are never taken away',
  "Once a responder is secure or has a trailing slash, no call takes that away: wherever the flags of a responder are written they are added to the current ones, or replaced by SetConfiguration, which keeps these two. Configuring a responder that is created or found by its URL only adds to its flags: active, what the URL says, what the configuration says.",
  ['histories', 'configurations'], 'every sequence of calls that configure a responder',
  'Losing security takes a certain second call on a certain responder; the tests do not configure responders twice in all combinations.',
  ['responder.go', 'config.go'],
  [('configuration of responders', 'responder.go: configure, setConfigFlags, resetConfigFlags, SetConfiguration')]),
P('P25', 'A responder found by URL fits what the URL and configuration say',
  'A responder that already exists is accepted for a URL exactly when the scheme agrees with its security, the trailing slash agrees with its own unless it is lenient about it, and each property of the given configuration is set; otherwise the call fails. A responder that is not configured yet, or is new, is configured with exactly what the URL and the configuration say, once; one that is configured is left alone. A configuration that redirects insecure requests is refused for a URL that is not secure. Looking up a registered responder applies the same test, and so does registering a resource where one with its template is configured already.',
  ['inputs', 'configurations', 'histories'], 'every responder, URL and configuration, for each function that finds or creates responders by URL',
  'It takes one of the combinations of flags, scheme, slash and configuration that the tests leave out to accept a responder that the URL does not describe.',
  ['responder.go', 'router.go'],
  [('compatibility', 'responder.go: checkForConfigCompatibility, configure'), ('users', 'Host, HostUsingConfig, Resource, ResourceUsingConfig, RegisteredHost, RegisteredResource, _Responder, registered_Responder')]),
P('P26', "Methods that take a URL or path template act on exactly that responder",
  'Every ...At method and the URL and path variants of the handler methods look up exactly one responder with the given template: methods that set something create it if needed, methods that get or wrap something report it if it is not registered, and a failed lookup is reported without any effect. They apply exactly the operation they are named after to the responder that was found, with exactly the given arguments, and return its result. SetConfigurationAt configures a registered responder and creates one that is not registered with the configuration.',
  ['inputs', 'configurations'], 'every template and every state of the tree',
  '36 methods in two receivers differ by a word; the tests call each on one or two responders.',
  ['responder.go', 'router.go'],
  [('methods with a template', 'responder.go, router.go: ...At, PathHandlerOf, URLHandlerOf, ...')]),
P('P27', 'What is set is what is used and returned; invalid values change nothing',
  'Shared data, implementations, redirect codes, redirect handlers, the handler of not found and HTTP method handlers that are set are kept in exactly their own place and returned by their getters; where nothing was set the getter returns the common value. Invalid values - nil handlers and implementations, codes other than 301 and 308, implementations whose handlers cannot be detected - are rejected without changing anything. Getters change nothing.',
  ['inputs', 'histories'], 'every value, every previous state',
  'Setters that keep a value in a neighbouring field or that keep a rejected one are seen only by looking at everything else.',
  ['responder.go', 'requesthandler.go'],
  [('setters and getters', 'responder.go: SetSharedData, SetImplementation, SetPermanentRedirectCode, SetRedirectHandler, SetHandlerFor; requesthandler.go: SetPermanentRedirectCode, SetCommonRedirectHandler, SetHandlerForNotFound')]),
P('P28', 'Middlewares wrap in order, each the result of the previous one',
  'Every function that applies middlewares applies all of them, from the first to the last, each to the result of the previous one, starting with the function that was current, and keeps the last result in place of the wrapped function; nothing else is wrapped. An empty list or a nil middleware is an error.',
  ['inputs', 'configurations'], 'every list of middlewares, every wrapped function',
  'The tests wrap with one or two middlewares that are not distinguished by order at every place that wraps.',
  ['responder.go', 'router.go', 'requesthandler.go', 'middleware.go', 'utils.go'],
  [('wrapping', 'WrapRequestPasser, WrapRequestHandler, WrapRedirectHandler, WrapCommonRedirectHandler, WrapHandlerOfNotFound, wrapHandlerOf')]),
P('P29', 'Operations on a subtree reach every responder below exactly once',
  "An operation for all hosts and resources below a responder or the router - setting shared data or the configuration, wrapping request passers, request handlers or the handlers of HTTP methods - is applied once to each responder below and to nothing else. Shared data that a responder already has is kept; a responder configured with more than security and trailing slash keeps its configuration; responders without handlers are skipped when handlers of HTTP methods are wrapped, and a method without a handler is ignored. An error of one responder is reported.",
  ['histories', 'configurations'], 'every tree below the responder, of any depth and breadth',
  'The tests use trees of one shape; whether the traversal visits every responder depends on where in the tree it has children.',
  ['utils.go', 'responder.go', 'router.go', 'middleware.go'],
  [('the traversal', 'traverseAndCall'), ('operations', 'SetSharedDataForSubtree/ForAll, SetConfigurationForSubtree/ForAll, WrapSubtree…, WrapAll…, wrapEveryHandlerOf')]),
P('P30', 'A template matches exactly the strings whose parts fit its segments',
  "Template.Match answers yes exactly if the segments before the wildcard fit the string's beginning one after another, the segments after the wildcard fit its end one before another, every segment has been compared, and without a wildcard nothing is left of the string. A static segment fits as itself, a pattern as the text its regexp finds there. Each pattern's text is added to the values under its name; if there's a value under that name already, the text must be equal to it. What's left is the wildcard's value, and is not added when empty. Without a match the given values are returned as they were, and nothing is ever changed.",
  ['inputs'], 'every template, every string and every list of values', 'The tests match a few dozen strings; an off-by-one in what is left of a string, or a value that is lost or overwritten, shows only for particular templates.',
  ['template.go'], [('matching', 'template.go: Template.Match')]),
P('P31', 'Templates are made as their text says and never change afterwards',
  "Parsing goes through the whole template string, static and dynamic segments in turn, and returns the first error; Parse panics exactly where TryToParse returns an error. A value's pattern is compiled with an anchor on the side that it's matched from - at the beginning before a wildcard, at the end after it, and on both sides at the end of a template without a wildcard - and is grouped whenever an anchor would otherwise bind only to an alternative of it. A repeated value name shares the first pattern, and another pattern for it is refused, as is a second wildcard. The wildcard's index is that of its segment. A template without a name gets the name of its only value; with several values or none it has no name. Parsed segments and patterns, which responders share, are never written to again: nothing but SetName and Clear changes a template, and Clear leaves nothing of it.",
  ['inputs', 'histories'], 'every template string, and every function of the package that could write to a template', 'The tests parse a list of chosen templates; a pattern that is anchored on the wrong side or shared with another segment shows only with particular combinations of segments.',
  ['template.go'], [('segments', 'template.go: appendDynamicSegmentTo, groupedPattern, parse'), ('templates', 'TryToParse, Parse, Template.Clear, SetName')]),
P('P32', 'A template with values applied is all its segments in order, with fitting values',
  "TryToApply returns the segments' texts in order: a static segment's own, and for a wildcard or a pattern the value under its name. A value is put in place of a pattern only if the pattern's regexp matches the whole of it. A missing value is an error unless missing values are ignored, and then nothing is put in. Values are refused for no other reason. Apply returns the same text, and panics where TryToApply returns an error.",
  ['inputs'], 'every template and every list of values', 'A value that only partly matches, or a mistake in the last segment, is found only by specific values; the tests try a handful.',
  ['template.go'], [('applying values', 'Template.TryToApply, Template.Apply')]),
P('P33', "A responder's URL leads to that responder",
  "The URL of a responder has the scheme https exactly when the responder is secure, the host of the host above it, and a path of the segments of the resources from the root down to it, each after one slash, with a slash at the end exactly when the resource or host has one, or is the root. Static templates contribute their text, other templates their text with the given values put in; values that are missing or do not fit make it fail, and nothing else does.",
  ['configurations', 'inputs'], 'every responder in every tree, all values',
  'The tests compare the URLs of the resources of a few trees.',
  ['utils.go', 'responder.go'],
  [('the URL', '_ResponderBase.URL, responderURL')]),
P('P34', 'A configured redirect goes to the configured URL and the remaining path',
  "A redirect is configured only with a URL and a 3xx code. Every request that the responder is to redirect then gets exactly one call of the responder's redirect handler, or the common one, with the configured code and the configured URL - made absolute unless it has an http or https scheme - followed by the escaped path that remained, joined by exactly one slash. When redirecting any request, the request handler isn't used at all; otherwise only the final redirect changes.",
  ['inputs', 'configurations'], 'every URL and code a redirect can be configured with, every request, with or without a remaining path', 'The tests configure a few URLs; slashes at the seam, remaining paths and handlers that are set later combine in ways they do not sample.',
  ['responder.go'],
  [('redirect configuration', 'responder.go: RedirectRequestTo, RedirectAnyRequestTo, redirector')]),
P('P35', 'Adapters of net/http handlers and middlewares add nothing and lose nothing',
  "A net/http handler converted to a nanomux handler is called exactly once per request with the response writer and the request, its request counts as handled, and when it is converted with arguments, ArgsFrom finds the request's arguments in its request's context. A net/http middleware converted with Mw is applied once per wrapped handler; when it goes on, the next handler gets the response writer and request that the middleware passed on and the arguments of that request, and its result is the result; when it does not go on, the request counts as handled. Calls for different requests share no state.",
  ['schedules', 'inputs'], 'every handler and middleware, every request, any number of calls of the next handler, concurrent requests',
  'The tests adapt a few handlers and call them one after another with requests whose contexts are empty.',
  ['requesthandler.go', 'middleware.go', 'utils.go'],
  [('adapters', 'Hr, FnHr, HrWithArgs, FnHrWithArgs, Mw'), ('context key', 'ArgsFrom')]),
P('P36', 'Handlers are told the values, path and responder of their own request',
  "What a handler learns from its arguments is what routing decided: the remaining path is the part of the routing path below the current responder, with its leading slash unless the responder has a trailing slash or the path is the root, and empty when nothing remains; shared data, implementation, host and resource are those of the current responder and nil without one; a custom value that was set under a key is the one returned for an equal key, and setting it changes no other; and the arguments put in a request's context are the ones found there.",
  ['inputs', 'histories'], 'every state of the arguments during a request: any path, position and responder, any custom keys and values', 'The tests look at the arguments in a few handlers; the property ranges over every position, responder and sequence of custom values.',
  ['utils.go'],
  [('accessors of Args', 'utils.go: Args.RemainingPath, Host, CurrentResource, ResponderSharedData, ResponderImpl, HostPathValues, Set, Get, ArgsFrom')]),
P('P37', 'A host or resource served directly answers only requests that match it',
  "A router, host or resource that is used directly as an HTTP handler gives a request to its own chain only if the host's template matches the request's host name or the resource's template matches the first path segment, with itself as the current responder; requests that don't match and requests its chain leaves unhandled get to the not-found handler exactly once.",
  ['inputs', 'configurations'], REQ, SAMPLE, ['host.go', 'resource.go', 'router.go'],
  [('entry points', 'Router.ServeHTTP, Host.ServeHTTP, Resource.ServeHTTP')]),
P('P38', "Questions about the tree are answered from the whole tree",
  "The parent, host and router of a responder are those above it in the tree, nil if there are none; the lists of hosts and child resources, and those that subtree operations start from, contain each one exactly once and are not the responder's own lists; having a child, having any, and finding one by name are answered yes exactly when there is such a child - static, pattern or wildcard. No question changes anything.",
  ['histories', 'configurations'], 'every tree that can be built, every responder in it', 'The tests ask about small trees in which not every kind of child is present together.',
  ['responder.go', 'resource.go', 'router.go'],
  [('questions about the tree', 'Resource.Host, Resource.Parent, Router, isBelow, ChildResources, ChildResourceNamed, HasChildResource, HasAnyChildResources, Hosts, HostNamed, HasHost, HasAnyHost, _Responders')]),
P('P39', 'A constructor makes exactly the responder that its template and config describe',
  "A new host or resource has the template of its URL template's last part ('/' alone is the root's), is secure and has a trailing slash exactly as the URL template says (the root has none), is otherwise configured as the given config says, has the given implementation and the handlers found in it and nothing else, remembers the host and prefix path it has to be registered under, receives and passes requests itself, and is in no tree. A constructor panics for a template, implementation or config that can't make a responder - a wildcard host, a root under a host, an insecure responder that redirects insecure requests, a nil implementation - and for no other.",
  ['inputs', 'configurations'], 'every URL template, implementation and config given to a constructor',
  'A template has a scheme, host, prefix, last segment and trailing slash, and a config eight switches; the tests construct a few dozen of the combinations.',
  ['host.go', 'resource.go', 'router.go', 'utils.go'],
  [('constructors', 'host.go, resource.go: createHost, createResource, createDormantHost, createDormantResource, New*; router.go: NewRouter; utils.go: rootTmpl')]),
P('P40', 'A lookup by URL or path template finds exactly that registered responder',
  "A path template is looked up segment by segment, each in the resource that was found for the segment before, by name if the segment is only a name and by its whole template otherwise; all segments have to be there. A URL template is split into host and path; the path is looked up below the host with exactly that template, below the router's root if it has no host, or below the responder itself. What is found is returned, nil if it is not registered. It is checked that the responder is compatible with the template's scheme and trailing slash; a dormant one is configured with them by the exported lookups that document it. A lookup fails only if the template is invalid or incompatible, and changes nothing else.",
  ['inputs', 'configurations'], 'every URL and path template, every tree', 'The tests look up resources of one tree by templates that are valid; wrong results for partly registered paths, names or hosts without a root are not sampled.',
  ['responder.go', 'router.go'],
  [('lookups', 'registeredResource, registeredHost, registered_Responder, RegisteredResource, RegisteredHost')]),
P('P41', 'A resource with a URL template is registered exactly where the template says',
  "A resource that was created with a host or prefix path is registered under a responder only if its host and the segments of its prefix path are those of the responder's host and of the responders above, each compared once and in order, and then right where the rest of the prefix path says; with an additional prefix path only if the two together are the resource's own. The router registers it below the host with exactly that template, registering the host if it is new, or below its root, at the prefix path; a given URL has to have the resource's host and prefix path, and if it is an https one the resource becomes secure, otherwise not. Anything else is refused, and nothing is refused without such a reason. The URL template is given up only when the resource gets its place in the tree.",
  ['inputs', 'configurations'], 'every URL template and prefix path, every responder and tree',
  'The tests register resources with chosen templates; a prefix path that is longer, relative, repeated or has a trailing slash, and a host that differs only partly, are not sampled together.',
  ['responder.go', 'router.go', 'resource.go'],
  [('registration', 'RegisterResource, RegisterResourceUnder of _ResponderBase and Router'), ('comparison', 'validateURL, validateHostTmpl')]),
P('P42', 'URL templates are divided into host, path and segments as documented',
  "A template is absolute only if it starts with http:// or https://, and secure only with the latter; its host ends at the first slash after the scheme, and the rest is the path. One trailing slash is taken off the path and reported, after a host also when the path is nothing else. The last segment is what follows the last slash, the prefix what precedes it. A path's segments are the texts between its slashes, in order, with encoded slashes decoded and nothing else; an empty segment before another one is an error. A list of HTTP methods is divided into its words at commas and spaces, in upper case.",
  ['inputs'], 'every string given as a template, path or list of methods', 'The tests divide a list of chosen strings; a wrong index shows only for strings of a certain shape.',
  ['utils.go'],
  [('dividing templates', 'splitHostAndPath, getHost, splitURL, _PathSegmentIterator, splitPathSegments, toUpperSplitByCommaSpace')]),
P('P43', 'Comparison of templates and lookups of values are exact',
  "SimilarityWith reports two templates as the same only if their names and all segments - kinds, texts, patterns, value names, place of the wildcard - are the same; as differing in value names or in names only if nothing else differs; and as different otherwise. Each degree's error is its own, and only the same templates have none. IsStatic, IsWildcard, HasPattern, HasValueName, ValueNames and Name say what the segments and the name are. A value that is looked up, or replaced, is the one under the equal key; without one nothing is returned, and Set adds the pair; it changes nothing else.",
  ['inputs'], 'every pair of templates and every list of values', 'Uniqueness of responders rests on the comparison; the tests compare a list of chosen pairs.',
  ['template.go'], [('comparison and queries', 'Template.SimilarityWith, Similarity.Err, Template.IsStatic, IsWildcard, HasPattern, HasValueName, ValueNames'), ('values', 'TemplateValues.Get, get, Set')]),
P('P44', 'Escapes in template texts are read and written as documented',
  "A template's name is what is between a leading $ and the first colon that isn't escaped with a backslash; its escaped colons lose the backslash, and what follows is the content. Without a name, a leading \\$ stands for $. A static segment ends before the first { that isn't escaped; escaped braces lose the backslash, and a } that isn't escaped is an error. A value name ends at the first colon that isn't escaped, or at the } that closes the segment; the pattern ends at the } that closes the segment: braces that are escaped or in a character class don't count, others nest. A segment without an end, value name or pattern is an error. Content escapes braces of static segments, colons of value names and a leading $ of a template without a name, and writes the pattern of a repeated segment only once; UnescapedContent does the same without escapes; String puts $, the name with its colons escaped, and a colon in front of the content if there is a name.",
  ['inputs'], 'every template text, and every template whatever its segments', 'The tests parse and print a list of chosen templates; a wrong index or a forgotten escape shows only for texts of a certain shape.',
  ['template.go'], [('reading', 'templateNameAndContent, staticSegment, dynamicSegment'), ('writing', 'Template.Content, UnescapedContent, String')]),
P('P45', "Until they're replaced, not found and redirects are answered by the defaults",
  "As long as no handler was set for them, a request for something that doesn't exist is answered exactly once, with the status code 404, and a redirect is sent exactly once, to the URL and with the status code that the redirect was decided with; both report the request as handled. The permanent redirect code is 308 until it's set. The root path is the template of every root resource. Nothing but the package's setters and wrappers replaces these.",
  ['inputs', 'configurations'], 'every request, URL and status code, every state of the package',
  "The tests look at the answers of a few requests; whether the default handler reports the request as handled, or what it does with a certain method or URL, doesn't show in them.",
  ['requesthandler.go', 'utils.go'],
  [('initial values', 'notFoundResourceHandler, commonRedirectHandler, permanentRedirectCode, rootTmpl'), ('replacing', 'SetHandlerForNotFound, SetCommonRedirectHandler, SetPermanentRedirectCode, WrapHandlerOfNotFound, WrapCommonRedirectHandler')]),
]

NA = [
N('P90', 'A printed template parses to one that matches the same strings',
  "For every template, parsing String() succeeds and gives a template with the same name and value names that matches the same strings with the same values.",
  ['inputs'], 'every template that can be parsed', 'The tests print and parse a few templates; the text of a pattern can be any regular expression.',
  ['template.go'], [('printing and parsing', 'Template.String, Content, TryToParse')],
  "Content prints the text of the compiled, anchored expression, so the printed template is equal only in the language of its expressions. Equality of languages of arbitrary user-given regular expressions quantifies over strings at run time; no sound static argument about nanomux's source bounds it. What is written and read for escapes is decided by P44, anchors and groups by P31."),
N('P91', 'No template text or request makes the package panic with a runtime error',
  "Parsing, printing, matching and serving never index out of range, dereference nil or fail to terminate, whatever the texts and requests are; panics are only the documented ones.",
  ['inputs'], 'every string and every request', 'The tests use a few hundred strings; an index goes out of range only for texts of a certain shape.',
  ['template.go', 'utils.go', 'responder.go', 'router.go'], [('indexing', 'every index and slice expression')],
  "The analysis has intervals and equalities, but no relational numeric domain: index bounds after a loop that skips characters, and termination measures, can't be shown for all texts, and reporting every bound that isn't proven would be false alarms. The parts of it that matter for behaviour (which text is taken from where) are decided by P42 and P44."),
N('P92', 'Serving a request takes time linear in the path and the siblings tried',
  "Serving a request costs at most one attempt per sibling on the way of the request, and no more memory than its values.",
  ['inputs', 'configurations'], 'every tree and request', 'The tests measure nothing.',
  ['resource.go', 'template.go', 'requesthandler.go'], [('passing', 'passRequest, Match')],
  "Cost depends on the user's regular expressions and on the sizes of trees and requests at run time; a static cost bound over them is out of reach of this family here. That each sibling is tried at most once, in order, is decided by P11 and P30."),
]
