// Procedures a host defines through the embedding API, each doing in C what one of the language does:
// the programs of C26 call them where other programs call the latter.
#define GSUBR(name, req, rst, fn) pscm_c_define_gsubr(name, req, 0, rst, (SCM * (*)(void)) fn)

static void capi_error(const char *msg) {
  pscm_ithrow(wrap(make_sym("error")), scm_list1(scm_from_c_string(msg, (int)strlen(msg))), 1);
}

static int to_int(SCM *n) {
  if (!is_num(n)) capi_error("integer expected");
  return scm_to_int(n);
}

static SCM *capi_list(SCM_List *args) {
  SCM *r = scm_nil();
  for (SCM_List *l = args; l; l = l->next) r = scm_cons(l->data, r);
  SCM *s = scm_nil();
  for (; is_pair(r); r = cdr(r)) s = scm_cons(car(r), s);
  return s;
}
static SCM *capi_list0() { return scm_nil(); }
static SCM *capi_list1(SCM *a) { return scm_list1(a); }
static SCM *capi_list2(SCM *a, SCM *b) { return scm_list2(a, b); }
static SCM *capi_list3(SCM *a, SCM *b, SCM *c) { return scm_list3(a, b, c); }

static SCM *capi_call(SCM_List *args) {
  if (!args) capi_error("c-call: procedure expected");
  SCM *f = args->data;
  SCM_List *a = args->next;
  if (!a) return scm_call_0(f);
  if (!a->next) return scm_call_1(f, a->data);
  if (!a->next->next) return scm_call_2(f, a->data, a->next->data);
  if (!a->next->next->next) return scm_call_3(f, a->data, a->next->data, a->next->next->data);
  return scm_apply_0(f, capi_list(a));
}
static SCM *capi_apply(SCM *f, SCM *l) { return scm_apply_0(f, l); }
static SCM *capi_map(SCM *f, SCM *l) {
  SCM *r = scm_nil();
  for (; is_pair(l); l = cdr(l)) r = scm_cons(scm_call_1(f, car(l)), r);
  SCM *s = scm_nil();
  for (; is_pair(r); r = cdr(r)) s = scm_cons(car(r), s);
  return s;
}
static SCM *capi_for_each(SCM *f, SCM *l) {
  for (; is_pair(l); l = cdr(l)) scm_call_1(f, car(l));
  return scm_none();
}
static SCM *capi_fold(SCM *f, SCM *x, SCM *l) {
  for (; is_pair(l); l = cdr(l)) x = scm_call_2(f, car(l), x);
  return x;
}

static SCM *capi_throw(SCM_List *args) {
  if (!args || !is_sym(args->data)) capi_error("c-throw: symbol expected");
  return pscm_ithrow(args->data, capi_list(args->next), 1);
}
static SCM *capi_fail(SCM *) {
  capi_error("c-fail: failed");
  return nullptr;
}
struct CatchData {
  SCM *thunk, *handler;
};
static SCM *capi_catch_body(void *d) { return scm_call_0(((CatchData *)d)->thunk); }
static SCM *capi_catch_handler(void *d, SCM *tag, SCM *args) {
  return scm_apply_0(((CatchData *)d)->handler, scm_cons(tag, args ? args : scm_nil()));
}
static SCM *capi_catch(SCM *tag, SCM *thunk, SCM *handler) {
  CatchData d = { thunk, handler };
  return scm_internal_catch(tag, capi_catch_body, &d, capi_catch_handler, &d);
}
// A C function as body and as handler, with data of its own
static SCM *capi_guard_handler(void *d, SCM *tag, SCM *args) {
  (void)args;
  return scm_list2((SCM *)d, tag);
}
static SCM *capi_guard(SCM *thunk, SCM *mark) {
  CatchData d = { thunk, nullptr };
  return scm_internal_catch(scm_bool_true(), capi_catch_body, &d, capi_guard_handler, mark);
}

// The host's own entries, from inside a procedure of the host
static SCM *failed() { return wrap(make_sym("c-failed")); }
static SCM *capi_eval(SCM *x) {
  SCM *v = pscm_eval(x);
  return v ? v : failed();
}
static SCM *capi_eval_string(SCM *s) {
  if (!is_str(s)) capi_error("c-eval-string: string expected");
  SCM *v = pscm_eval_string(std::string(cast<SCM_String>(s)->data, cast<SCM_String>(s)->len).c_str());
  return v ? v : failed();
}
static SCM *capi_parse(SCM *s) {
  if (!is_str(s)) capi_error("c-parse: string expected");
  SCM *v = pscm_parse(std::string(cast<SCM_String>(s)->data, cast<SCM_String>(s)->len).c_str());
  return v ? v : failed();
}
static SCM *capi_error_key(SCM *x) {
  SCM *v = pscm_eval(x);
  return v ? scm_bool_false() : wrap(make_sym(pscm_get_last_error_key() ? pscm_get_last_error_key() : "?"));
}

// Variables
static const char *name_of(SCM *s) {
  if (!is_sym(s)) capi_error("symbol expected");
  return cast<SCM_Symbol>(s)->data;
}
static SCM *capi_define(SCM *n, SCM *v) {
  pscm_c_define(name_of(n), v);
  return scm_none();
}
static SCM *capi_ref(SCM *n) { return pscm_variable_ref(pscm_c_lookup(name_of(n))); }
static SCM *capi_box(SCM *v) { return pscm_make_variable(v); }
static SCM *capi_unbox(SCM *b) { return pscm_variable_ref(b); }
static SCM *capi_define_procedure(SCM *n, SCM *arity) {
  switch (to_int(arity)) {
  case 0: GSUBR(name_of(n), 0, 0, capi_list0); break;
  case 1: GSUBR(name_of(n), 1, 0, capi_list1); break;
  case 2: GSUBR(name_of(n), 2, 0, capi_list2); break;
  case 3: GSUBR(name_of(n), 3, 0, capi_list3); break;
  default: GSUBR(name_of(n), 0, 1, capi_list);
  }
  return scm_none();
}

// Modules
static SCM *capi_thunk(void *f) { return scm_call_0((SCM *)f); }
static void capi_init(void *f) { scm_call_0((SCM *)f); }
static SCM *capi_in_module(SCM *f) {
  SCM *m = scm_c_define_module("(c module)", nullptr, nullptr);
  return scm_c_call_with_current_module(m, capi_thunk, f);
}
static SCM *capi_new_module(SCM *f) {
  scm_c_define_module("(c other)", capi_init, f);
  return scm_none();
}
static SCM *capi_module_define(SCM *n, SCM *v) {
  scm_c_module_define(scm_c_resolve_module("(c module)"), name_of(n), v);
  return scm_none();
}
static SCM *capi_module_ref(SCM *n) { return scm_variable_ref(scm_c_module_lookup(scm_c_resolve_module("(c module)"), name_of(n))); }

// Foreign objects
static long token_tag, pair_tag;
static SCM *capi_token(SCM *n) { return scm_make_smob_with_data(token_tag, to_int(n)); }
static SCM *capi_token_data(SCM *t) {
  scm_assert_smob_type(token_tag, t);
  return int_to_scm((int)(intptr_t)scm_smob_data(t));
}
static SCM *capi_token_set(SCM *t, SCM *n) {
  scm_assert_smob_type(token_tag, t);
  scm_set_smob_data(t, (void *)(intptr_t)to_int(n));
  return scm_none();
}
static SCM *capi_is_token(SCM *t) { return is_smob_type(t, token_tag) ? scm_bool_true() : scm_bool_false(); }
static SCM *token_equal(SCM *a, SCM *b) { return scm_smob_data(a) == scm_smob_data(b) ? scm_bool_true() : scm_bool_false(); }
static SCM *capi_point(SCM *x, SCM *y) { return scm_make_smob_with_data2(pair_tag, to_int(x), to_int(y)); }
static SCM *capi_point_data(SCM *t) {
  scm_assert_smob_type(pair_tag, t);
  return scm_list2(int_to_scm((int)(intptr_t)scm_smob_data(t)), int_to_scm((int)scm_smob_data2(t)));
}

// Conversions, there and back
static void *must(void *p) {
  if (!p) capi_error("conversion failed");
  return p;
}
static SCM *capi_string(SCM *s) {
  size_t n;
  char *c = (char *)must(scm_to_locale_stringn(s, &n));
  SCM *r = scm_from_locale_stringn(c, n);
  free(c);
  return r;
}
static SCM *capi_cstring(SCM *s) {
  char *c = (char *)must(scm_to_locale_stringn(s, nullptr));
  SCM *r = scm_from_locale_stringn(c, (size_t)-1);
  free(c);
  return r;
}
static SCM *capi_symbol(SCM *s) {
  size_t n;
  char *c = (char *)must(scm_to_locale_stringn(s, &n));
  SCM *r = scm_from_locale_symboln(c, n);
  free(c);
  return r;
}
static SCM *capi_symbol0(SCM *s) {
  char *c = (char *)must(scm_to_locale_stringn(s, nullptr));
  SCM *r = scm_from_locale_symbol(c);
  free(c);
  return r;
}
static SCM *capi_symbol_text(SCM *s) {
  if (!is_sym(s)) capi_error("symbol expected");
  return scm_symbol_to_string(s);
}
static SCM *capi_double(SCM *x) {
  if (!is_num(x) && !is_float(x) && !is_ratio(x)) capi_error("number expected");
  return scm_from_double(scm_to_double(x));
}
static SCM *capi_char(SCM *x) {
  if (!is_char(x)) capi_error("character expected");
  return scm_from_char(scm_to_char(x));
}
static SCM *capi_bool(SCM *x) {
  if (!is_bool(x)) capi_error("boolean expected");
  return bool_to_scm(scm_to_bool(x));
}
static SCM *capi_undefined() { return pscm_make_undefined_variable(); }
static SCM *capi_bound(SCM *b) { return scm_variable_bound_p(b); }
static SCM *capi_box_set(SCM *b, SCM *v) { return scm_variable_set_x(b, v); }
static SCM *capi_ithrow(SCM *k, SCM *args) { return pscm_ithrow(k, args, 1); }

// Foreign objects with all fields
static long full_tag;
static SCM *capi_full(SCM *x, SCM *y, SCM *z) {
  SCM *r = scm_make_smob_with_data3(full_tag, to_int(x), to_int(y), to_int(z));
  return r;
}
static SCM *capi_full_data(SCM *t) {
  scm_assert_smob_type(full_tag, t);
  return scm_cons(int_to_scm((int)scm_smob_flags(t)), scm_list3(int_to_scm((int)(intptr_t)scm_smob_data(t)), int_to_scm((int)scm_smob_data2(t)), int_to_scm((int)scm_smob_data3(t))));
}
static SCM *capi_full_set(SCM *t, SCM *i, SCM *v) {
  scm_assert_smob_type(full_tag, t);
  int64_t x = to_int(v);
  switch (to_int(i)) {
  case 0: scm_set_smob_flags(t, x); break;
  case 1: scm_set_smob_data(t, (void *)(intptr_t)x); break;
  case 2: scm_set_smob_data2(t, x); break;
  case 3: scm_set_smob_data3(t, x); break;
  default: capi_error("no such field");
  }
  return scm_none();
}

// Modules, by the host
static std::string text_of(SCM *s) {
  if (!is_str(s)) capi_error("string expected");
  return std::string(cast<SCM_String>(s)->data, cast<SCM_String>(s)->len);
}
static SCM *capi_mdef(SCM *m, SCM *n, SCM *v) { return scm_variable_ref(pscm_c_module_define(m, name_of(n), v)); }
static SCM *capi_mref(SCM *m, SCM *n) { return pscm_variable_ref(pscm_c_module_lookup(m, name_of(n))); }
static SCM *capi_mdefs(SCM *m, SCM *n, SCM *v) { return scm_variable_ref(scm_module_define(m, n, v)); }
static SCM *capi_mrefs(SCM *m, SCM *n) { return scm_variable_ref(scm_module_lookup(m, n)); }
static SCM *capi_look(SCM *n) { return scm_variable_ref(scm_lookup(n)); }
static SCM *capi_resolve(SCM *s) { return pscm_c_resolve_module(text_of(s).c_str()); }
static SCM *capi_use(SCM *s) {
  pscm_c_use_module(text_of(s).c_str());
  return scm_none();
}
static SCM *capi_curmod() { return pscm_c_current_module(); }
static SCM *capi_setmod(SCM *m) {
  if (!is_module(m)) capi_error("module expected");
  pscm_c_set_current_module(m);
  return scm_none();
}
static SCM *capi_within(SCM *m, SCM *f) { return scm_c_call_with_current_module(m, capi_thunk, f); }

static void define_capi() {
  GSUBR("c-list", 0, 1, capi_list);
  GSUBR("c-list0", 0, 0, capi_list0);
  GSUBR("c-list1", 1, 0, capi_list1);
  GSUBR("c-list2", 2, 0, capi_list2);
  GSUBR("c-list3", 3, 0, capi_list3);
  GSUBR("c-cons", 2, 0, scm_cons);
  GSUBR("c-call", 0, 1, capi_call);
  GSUBR("c-apply", 2, 0, capi_apply);
  GSUBR("c-map", 2, 0, capi_map);
  GSUBR("c-for-each", 2, 0, capi_for_each);
  GSUBR("c-fold", 3, 0, capi_fold);
  GSUBR("c-throw", 0, 1, capi_throw);
  GSUBR("c-fail", 1, 0, capi_fail);
  GSUBR("c-catch", 3, 0, capi_catch);
  GSUBR("c-guard", 2, 0, capi_guard);
  GSUBR("c-eval", 1, 0, capi_eval);
  GSUBR("c-eval-string", 1, 0, capi_eval_string);
  GSUBR("c-parse", 1, 0, capi_parse);
  GSUBR("c-error-key", 1, 0, capi_error_key);
  GSUBR("c-define", 2, 0, capi_define);
  GSUBR("c-ref", 1, 0, capi_ref);
  GSUBR("c-box", 1, 0, capi_box);
  GSUBR("c-unbox", 1, 0, capi_unbox);
  GSUBR("c-define-procedure", 2, 0, capi_define_procedure);
  GSUBR("c-in-module", 1, 0, capi_in_module);
  GSUBR("c-new-module", 1, 0, capi_new_module);
  GSUBR("c-module-define", 2, 0, capi_module_define);
  GSUBR("c-module-ref", 1, 0, capi_module_ref);
  token_tag = scm_make_smob_type("token", 0);
  scm_set_smob_equalp(token_tag, token_equal);
  pair_tag = scm_make_smob_type("point", 0);
  GSUBR("c-token", 1, 0, capi_token);
  GSUBR("c-token-data", 1, 0, capi_token_data);
  GSUBR("c-token-set!", 2, 0, capi_token_set);
  GSUBR("c-token?", 1, 0, capi_is_token);
  GSUBR("c-point", 2, 0, capi_point);
  GSUBR("c-point-data", 1, 0, capi_point_data);
  full_tag = scm_make_smob_type("full", 0);
  GSUBR("c-string", 1, 0, capi_string);
  GSUBR("c-cstring", 1, 0, capi_cstring);
  GSUBR("c-symbol", 1, 0, capi_symbol);
  GSUBR("c-symbol0", 1, 0, capi_symbol0);
  GSUBR("c-symbol-text", 1, 0, capi_symbol_text);
  GSUBR("c-double", 1, 0, capi_double);
  GSUBR("c-char", 1, 0, capi_char);
  GSUBR("c-bool", 1, 0, capi_bool);
  GSUBR("c-undefined", 0, 0, capi_undefined);
  GSUBR("c-bound?", 1, 0, capi_bound);
  GSUBR("c-box-set!", 2, 0, capi_box_set);
  GSUBR("c-ithrow", 2, 0, capi_ithrow);
  GSUBR("c-full", 3, 0, capi_full);
  GSUBR("c-full-data", 1, 0, capi_full_data);
  GSUBR("c-full-set!", 3, 0, capi_full_set);
  GSUBR("c-mdef", 3, 0, capi_mdef);
  GSUBR("c-mref", 2, 0, capi_mref);
  GSUBR("c-mdefs", 3, 0, capi_mdefs);
  GSUBR("c-mrefs", 2, 0, capi_mrefs);
  GSUBR("c-look", 1, 0, capi_look);
  GSUBR("c-resolve", 1, 0, capi_resolve);
  GSUBR("c-use", 1, 0, capi_use);
  GSUBR("c-current-module", 0, 0, capi_curmod);
  GSUBR("c-set-current-module", 1, 0, capi_setmod);
  GSUBR("c-within", 2, 0, capi_within);
}
