// Language negotiation: contexts and HTTP requests (package t).
package github.com/youthlin/t

ufn ctxval(c context.Context, k any) any
fn ctxL(c context.Context) any = ctxval(c, mkiface(zero(typeLang), typeLang))
fn ctxD(c context.Context) any = ctxval(c, mkiface(zero(typeDomain), typeDomain))

func SetCtxLocale(ctx, lang) (r)
  root C11
  requires ctx != nil
  ensures r != nil && ctxL(r) == mkiface(lang, string)
  ensures ctxD(r) == ctxD(ctx)
  modifies nothing

func SetCtxDomain(ctx, domain) (r)
  root C11
  requires ctx != nil
  ensures r != nil && ctxD(r) == mkiface(domain, string)
  ensures ctxL(r) == ctxL(ctx)
  modifies nothing

func GetCtxLocale(ctx) (lang, ok)
  root C11
  requires ctx != nil
  ensures ok == typeis(ctxL(ctx), string)
  ensures lang == (typeis(ctxL(ctx), string) ? ctxL(ctx).(string) : "")
  modifies nothing

func GetCtxDomain(ctx) (domain, ok)
  root C11
  requires ctx != nil
  ensures ok == typeis(ctxD(ctx), string)
  ensures domain == (typeis(ctxD(ctx), string) ? ctxD(ctx).(string) : "")
  modifies nothing

func WithContext(ctx) (r)
  root C07, C11
  requires ctx != nil && global(global) != nil
  ensures isolated(r, global(global))
  ensures r.locale == (typeis(ctxL(ctx), string) ? (ctxL(ctx).(string) == "" ? sysLocale() : norm(ctxL(ctx).(string))) : global(global).locale)
  ensures r.domain == (typeis(ctxD(ctx), string) ? ctxD(ctx).(string) : global(global).domain)
  modifies nothing

// the name an option sets; WithCookieName is the only source of values of the
// unexported option type
ufn optname(o getUserLangOpt) string
iface t.getUserLangOpt.call(o, hc) ()
  requires hc != nil
  ensures hc.cookieName == optname(o)
  modifies hc.cookieName

func WithCookieName$1(hc) ()
  root C11
  requires hc != nil
  ensures hc.cookieName == *cookieName
  modifies hc.cookieName

func WithCookieName(cookieName) (r)
  root C11
  ensures r != nil
  assumes optname(r) == cookieName
  note optname names the string an option was made with; that calling it sets exactly this name is the contract of WithCookieName$1
  modifies nothing

fn cookieName(opts []getUserLangOpt) string = len(opts) == 0 ? "lang" : optname(opts[len(opts)-1])
ufn cookieok(r *http.Request, n string) bool
ufn cookie(r *http.Request, n string) *http.Cookie

func GetUserLang(request, opts) (r)
  root C11
  requires request != nil && tsOK(global(global))
  requires forall i int :: {opts[i]} 0 <= i && i < len(opts) ==> opts[i] != nil
  ensures cookieok(request, cookieName(opts)) ==> r == cookie(request, cookieName(opts)).Value
  ensures !cookieok(request, cookieName(opts)) ==> isLocale(global(global), r)
  modifies nothing
  loopinv i iter, cfg *httpConfig ::: cfg != nil && fresh(cfg) && cfg.cookieName == (i == 0 ? "lang" : optname(opts[i-1]))
  loopinv i iter, supported []language.Tag ::: len(supported) == i
