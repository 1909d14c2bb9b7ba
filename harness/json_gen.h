// Text generators shared by the JSON checks: build one text per sequence of choices in T[].
static char T[8192]; static int tn;
static void tput(const char *s) { size_t l = strlen(s); memcpy(T + tn, s, l + 1); tn += (int)l; }
/* tokens */
static const char *TOK[] = { "[", "]", "{", "}", ",", ":", "\"\"", "\"k\"", "1", "-0.5e+1", "true", "null", " ", "false", "x", "\"" };
static void gen_tokens(int len) { tn = 0; T[0] = 0; for (int i = 0; i < len; i++) { int k = mc_choose(17); if (k == 16) break; tput(TOK[k]); } }
/* characters */
static void gen_chars(const char *pre, const char *alpha, int na, int len, const char *post)
{
    tn = 0; tput(pre);
    for (int i = 0; i < len; i++) { int k = mc_choose(na + 1); if (k == na) break; T[tn++] = alpha[k]; T[tn] = 0; }
    tput(post);
}
/* literals with one edit */
static void gen_literal(void)
{
    static const char *L[] = { "true", "false", "null" }; static const char ins[] = "tru flsn\"0,";
    char w[16]; const char *s = L[mc_choose(3)]; int n = (int)strlen(s), pos = mc_choose(n + 1), op = mc_choose(3), c = mc_choose((int)sizeof ins - 1);
    memcpy(w, s, pos);
    if (op == 0) { w[pos] = ins[c]; strcpy(w + pos + 1, s + pos); }
    else if (op == 1 && pos < n) { w[pos] = ins[c]; strcpy(w + pos + 1, s + pos + 1); }
    else if (pos < n) { strcpy(w + pos, s + pos + 1); }
    else strcpy(w, s);
    tn = 0; tput(mc_choose(2) ? "[" : "{\"a\":"); tput(w); tput(T[0] == '[' ? "]" : "}");
}
/* overlong and nested */
static void gen_limits(void)
{
    int kind = mc_choose(5), len = 123 + mc_choose(12), obj = mc_choose(2);
    tn = 0; tput(obj ? "{\"a\": " : "[");
    switch (kind) {
    case 0: tput("\""); for (int i = 0; i < len; i++) tput("s"); tput("\""); break;
    case 1: for (int i = 0; i < len; i++) tput("7"); break;
    case 2: tput("{ \""); for (int i = 0; i < len; i++) tput("k"); tput("\" : 1}"); break;
    case 3: tput("-0."); for (int i = 0; i < len - 3; i++) tput("3"); break;
    default: tput("\""); for (int i = 0; i < len / 6; i++) tput("\\u00e9"); for (int i = 0; i < len % 6; i++) tput("x"); tput("\""); break;
    }
    tput(obj ? "}" : "]");
}
static void gen_depth(void)
{
    int d = 13 + mc_choose(5), pat = mc_choose(4), leaf = mc_choose(3); char close[64]; int nc = 0;
    tn = 0; T[0] = 0;
    for (int i = 0; i < d; i++) {
        int o = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i & 1 : i >= d / 2;
        tput(o ? "{\"k\":" : "["); close[nc++] = o ? '}' : ']';
    }
    int lasto = close[nc - 1] == '}';
    tput(leaf == 0 && !lasto ? "" : leaf == 1 ? "1" : "[]");
    while (nc) { char b[2] = { close[--nc], 0 }; tput(b); }
}
