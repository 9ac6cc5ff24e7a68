/* the typed field interface of queue entries (F = SPHLFEntry, A = SPHLFEntry) or log entries (F = SPHLFlogEntry, A = SPHLFLogEntry) */
#define CAT_(a, b) a##b
#define CAT2(a, b) CAT_(a, b)
#define FN(x) CAT2(F, x)
#define AN(x) CAT2(A, x)
#define ME(x) CAT2(x, SUF)
static HANDLE ME(h); static struct { int type, ok, n; unsigned long at, size, v; } ME(fl)[8];
static unsigned long ME(align)(int t) { static const unsigned char al[] = { 1, 2, 4, 8, 8, 8, 4, 8, 1 }; return al[t]; }
static void ME(where)(unsigned long at, unsigned long size, unsigned long al, unsigned long before, unsigned long rem, int ok) {
  unsigned long end = before + rem, a = (before + al - 1) & ~(al - 1); se_assert(ok == (a + size <= end), "a field is refused or accepted wrongly");
  if (ok) { se_reach("added"); se_assert(at == a, "a field does not lie at the next aligned place"); se_assert(U(ME(h).next) == a + size && ME(h).remaining == end - a - size, "the entry's remaining space is wrong"); } else { se_reach("refused"); se_assert(U(ME(h).next) == before && ME(h).remaining == rem, "a refused field changes the entry"); } }
static void ME(put)(int i) {
  unsigned long before = U(ME(h).next), rem = ME(h).remaining, size, al, v = se_u64("value"), at; int t = (int)se_choose("type", 10), rc; char str[4]; void *p = 0; ME(fl)[i].type = t; ME(fl)[i].n = 0;
  switch (t) {
    case 0: size = 1; rc = FN(AddChar)(&ME(h), (char)v); break; case 1: size = 2; rc = FN(AddShort)(&ME(h), (short)v); break; case 2: size = 4; rc = FN(AddInt)(&ME(h), (int)v); break; case 3: size = 8; rc = FN(AddLong)(&ME(h), (long)v); break;
    case 4: size = 8; rc = FN(AddPtr)(&ME(h), (void *)v); break; case 5: size = 8; rc = FN(AddLongLong)(&ME(h), (long long)v); break;
    case 6: { float f; unsigned u = (unsigned)v; memcpy(&f, &u, 4); size = 4; rc = FN(AddFloat)(&ME(h), f); break; } case 7: { double d; memcpy(&d, &v, 8); size = 8; rc = FN(AddDouble)(&ME(h), d); break; }
    case 8: { int n = (int)se_choose("length", 4); for (int k = 0; k < 4; k++) str[k] = k < n ? (char)(v >> 8 * k) : 0; for (int k = 0; k < n; k++) se_assume(str[k] != 0); size = n + 1ul; v &= (1ul << 8 * n) - 1; ME(fl)[i].n = n; rc = FN(AddString)(&ME(h), str); break; }
    default: { static const unsigned char ss[] = { 1, 5, 12, 24 }; size = ss[se_choose("size", 4)]; al = 1ul << se_choose("align", 5); p = FN(AllocStruct)(&ME(h), size, al); rc = p ? 0 : -1; ME(fl)[i].n = (int)al; } }
  if (t < 9) al = ME(align)(t); at = U(ME(h).next) - size; ME(where)(p ? U(p) : at, size, al, before, rem, rc == 0); se_assert(rc == 0 || rc == -1, "the return value is wrong"); ME(fl)[i].ok = rc == 0; ME(fl)[i].at = at; ME(fl)[i].size = size; if (t < 8 && size < 8) v &= (1ul << 8 * size) - 1; ME(fl)[i].v = v;
  if (rc == 0) { if (t == 9) for (unsigned long k = 0; k < size; k++) *(unsigned char *)(at + k) = shadow[at - BUF + k] = (unsigned char)(v >> 8 * (k & 7)); else for (unsigned long k = 0; k < size; k++) shadow[at - BUF + k] = k < 8 ? (unsigned char)(v >> 8 * k) : 0; } }
static void ME(get)(int i, int again) { unsigned long before = U(ME(h).next), rem = ME(h).remaining, v = 0; int t = ME(fl)[i].type; unsigned long size = ME(fl)[i].size; void *p = 0; char *s = 0;
  switch (t) { case 0: v = (unsigned char)FN(GetNextChar)(&ME(h)); break; case 1: v = (unsigned short)FN(GetNextShort)(&ME(h)); break; case 2: v = (unsigned)FN(GetNextInt)(&ME(h)); break; case 3: v = (unsigned long)FN(GetNextLong)(&ME(h)); break; case 4: v = U(FN(GetNextPtr)(&ME(h))); break; case 5: v = (unsigned long)FN(GetNextLongLong)(&ME(h)); break;
    case 6: { float f = FN(GetNextFloat)(&ME(h)); unsigned u; memcpy(&u, &f, 4); v = u; break; } case 7: { double d = FN(GetNextDouble)(&ME(h)); memcpy(&v, &d, 8); break; } case 8: s = FN(GetNextString)(&ME(h)); break; default: p = FN(GetStructPtr)(&ME(h), size, (unsigned long)ME(fl)[i].n); }
  if (again) { /* behind the last field: nothing beyond the entry is read */
    unsigned long al = t == 9 ? (unsigned long)ME(fl)[i].n : ME(align)(t), a = (before + al - 1) & ~(al - 1), end = before + rem; if (t == 8) { if (s) se_assert(U(s) == before && U(ME(h).next) <= end && U(ME(h).next) + ME(h).remaining == end, "a string is read beyond the entry"); if (s) { unsigned long l = U(ME(h).next) - before; se_assert(l >= 1 && ((char *)before)[l - 1] == 0, "a string is read that does not end in the entry"); } else { se_reach("end"); se_assert(U(ME(h).next) == before && ME(h).remaining == rem, "a field that is not there changes the entry"); } }
    else if (a + size > end) { se_reach("end"); se_assert(v == 0 && !p, "a field is read beyond the entry"); se_assert(U(ME(h).next) == before && ME(h).remaining == rem, "a field that is not there changes the entry"); } else se_assert(U(ME(h).next) == a + size && ME(h).remaining == end - a - size, "the entry's remaining space is wrong"); return; }
  se_reach("read"); se_assert(U(ME(h).next) == ME(fl)[i].at + size && U(ME(h).next) + ME(h).remaining == before + rem, "the fields are not read where they were written");
  if (t == 8) { se_assert(U(s) == ME(fl)[i].at, "a string is not read where it was written"); for (int k = 0; k <= ME(fl)[i].n; k++) se_assert(s[k] == (k < ME(fl)[i].n ? (char)(ME(fl)[i].v >> 8 * k) : 0), "a string reads back differently"); } else if (t == 9) se_assert(U(p) == ME(fl)[i].at, "a structure is not found where it was allocated"); else se_assert(v == ME(fl)[i].v, "a field reads back differently"); }
static void ME(fields)(void) {
  se_map(BUF, AREA); for (int i = 0; i < AREA; i++) ((unsigned char *)BUF)[i] = shadow[i] = 0xa5; unsigned long start = BUF + 16 + 4ul * se_choose("skew", 2); unsigned rem = (unsigned)se_range("room", 0, AREA - 32); int n = (int)se_param("fields", 2);
  ME(h).entry = (HEADER *)BUF; ME(h).next = (char *)start; ME(h).total_size = (unsigned short)(rem + 16); ME(h).remaining = (unsigned short)rem; se_assert(FN2(GetFreePtr)(&ME(h)) == (void *)start, "the free space starts behind the header");
  for (int i = 0; i < n; i++) { ME(put)(i); for (int k = 0; k < AREA; k++) se_assert(((unsigned char *)BUF)[k] == shadow[k], "a byte changes that belongs to no field"); }
  ME(h).next = (char *)start; ME(h).remaining = (unsigned short)rem; int last = 0; for (int i = 0; i < n; i++) if (ME(fl)[i].ok) { ME(get)(i, 0); last = i; } ME(get)(last, 1); for (int k = 0; k < AREA; k++) se_assert(((unsigned char *)BUF)[k] == shadow[k], "a byte changes that belongs to no field"); }
static void ME(attributes)(void) { /* every header */
  se_map(BUF, 64); unsigned id = se_u32("id"), x; unsigned short pid = se_u16("pid"), tid = se_u16("tid"); unsigned long ts = se_u64("time"); memcpy((void *)BUF, &id, 4); memcpy((void *)(BUF + 4), &pid, 2); memcpy((void *)(BUF + 6), &tid, 2); memcpy((void *)(BUF + 8), &ts, 8);
  ME(h).entry = (HEADER *)BUF; ME(h).next = (char *)(BUF + 16); ME(h).total_size = 64; ME(h).remaining = 48; int valid = id & 1, stamped = valid && (id & 2); 
  for (int round = 0; round < 2; round++) { se_assert(AN(IsComplete)(&ME(h)) == valid && AN(IsTimestamped)(&ME(h)) == stamped, "complete or time stamped is reported wrongly"); se_assert(AN(TimeStamp)(&ME(h)) == (stamped ? ts : 0) && AN(PID)(&ME(h)) == (stamped ? pid : 0) && AN(TID)(&ME(h)) == (stamped ? tid : 0), "the time stamp or the writer's identity reads back differently"); se_assert(AN(Header)(&ME(h)) == (valid ? (HEADER *)BUF : 0), "the header is found wrongly");
    if (valid) { se_reach("valid"); se_assert(AN(Category)(&ME(h)) == (int)(id >> 4 & 0xfff) && AN(Subcat)(&ME(h)) == (int)(id >> 16 & 0xff), "the category reads back differently"); } else { se_reach("invalid"); int c = AN(Category)(&ME(h)), d = AN(Subcat)(&ME(h)); se_assert(c <= 0 && d <= 0, "an incomplete entry has a category"); }
    if (round) break; switch (se_choose("how", 3)) { case 0: AN(Complete)(&ME(h)); break; case 1: AN(StrongComplete)(&ME(h)); break; default: AN(WeakComplete)(&ME(h)); } memcpy(&x, (void *)BUF, 4); se_assert(x == (id | 1), "completing an entry changes its header"); valid = 1; stamped = (id & 2) != 0; } }
#undef FN
#undef AN
#undef ME
