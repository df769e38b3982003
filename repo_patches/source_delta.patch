From 0d4bb804062085cab089348746795bf8d7ec6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 001/183] fix: row::power() of the most negative int overflowed

---
 ringing/row.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..8d17fe3 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -522,7 +522,8 @@ row row::power( int n ) const
   if (n == 0)
     return row(b);
   else if (n < 0)
-    return inverse().power( -n );
+    // Not simply inverse().power(-n), as -n is not representable for INT_MIN
+    return inverse() * inverse().power( -(n + 1) );
   else if (n > b*b) 
     // Only do this optimisation if n is large as order() is expensive
     return power( n % order() );
-- 
2.43.0


From 36c4794f663f94683cdf80427ffee22b13f37c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 002/183] fix: change::swappair() read past the end of the list
 of swaps

---
 ringing/change.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..aaa15c8 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,8 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      // The swap after it may be there too. If so, take it out.
+      if(s != swaps.end() && *s == which + 1)
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From c9214c16f544f1a73d1e5c61893e2cd5130069bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 003/183] fix: reading a bracketed bell in place notation
 dereferenced the end of the text

---
 ringing/place_notation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/place_notation.h b/ringing/place_notation.h
index 03d3c38..2fc89b1 100644
--- a/ringing/place_notation.h
+++ b/ringing/place_notation.h
@@ -97,7 +97,7 @@ ForwardIterator read_bell_expr(ForwardIterator first, ForwardIterator last) {
     for ( int depth = 0; first < last && !(*first == '}' && depth == 0);
           ++first ) {
       if (*first == '{') ++depth;
-      else if (*last == '}') --depth;
+      else if (*first == '}') --depth;
     }
     if ( first == last || *first != '}') throw bell::invalid();
     ++first;
-- 
2.43.0


From 4fba59f7e18e19f3304bb2f1403217b4ce477452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 004/183] fix: row_block() wrote to an empty block for half of
 a single change

---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 8d17fe3..44b73ce 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -601,7 +601,7 @@ static size_t row_block_base_size(vector<change> const& c, int flags)
 row_block::row_block(const vector<change> &c, int flags) 
   : vector<row>( row_block_base_size(c, flags) ), ch(c), flags(flags)
 {
-  if (ch.size()) {
+  if (size() && ch.size()) {
     (*this)[0] = row::rounds(ch[0].bells());
     recalculate();
   }
-- 
2.43.0


From d5b4fbcadc976d63604d680695465116cd46589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 005/183] fix: row::power() recursed for ever when the row's
 order exceeded the exponent

---
 ringing/row.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 44b73ce..21dcc4c 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -524,10 +524,14 @@ row row::power( int n ) const
   else if (n < 0)
     // Not simply inverse().power(-n), as -n is not representable for INT_MIN
     return inverse() * inverse().power( -(n + 1) );
-  else if (n > b*b) 
-    // Only do this optimisation if n is large as order() is expensive
-    return power( n % order() );
-  else if (n % 2)
+
+  // Only do this optimisation if n is large as order() is expensive
+  if (n > b*b) {
+    int const o = order();
+    if (n >= o) return power( n % o );
+  }
+
+  if (n % 2)
     return *this * power( n-1 );
   else {
     row temp = power( n/2 );
-- 
2.43.0


From 84c207d1623d59cdcfbfb01e32d9069097806229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 006/183] fix: method::methclass() read past the end of the
 lead head

---
 ringing/method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..8dc0b49 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -304,13 +304,13 @@ int method::methclass(int year) const
 
   // Set hb to be the first hunt bell, or hb=n if there is none
   bell hb;
-  for (hb = 0; lhr[hb] != hb && hb < n; ++hb)
+  for (hb = 0; hb < n && lhr[hb] != hb; ++hb)
     ;
   
   // Set wb to be the size of the first set of working bells    
   int wb = 0;
   { int i;
-    for (i = 0; lhr[i] == i && i < n; ++i)
+    for (i = 0; i < n && lhr[i] == i; ++i)
       ;
     if (i < n) 
       wb = lhr.cycle_size(i);
-- 
2.43.0


From ab124ab5e78cd14438c1587d31e3f1c723eab382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 007/183] fix: method::maxblows() returned -1 for a method
 without places

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 8dc0b49..0c93473 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -641,7 +641,7 @@ string method::format( int flags ) const
 // Counts the maximum number of consecutive blows in one place
 int method::maxblows(void) const
 {
-  int maxn = 0;
+  int maxn = 2;   // One more than the number of blows: every bell rings once
 
   for ( const_iterator b(begin()), i(b), e(end()); i != e; ++i )
     for ( int p(0); p < bells(); ++p )
-- 
2.43.0


From 5e1e578fae759e5183f36fee5f3d5cc374365687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 008/183] fix: finding a bell's symmetry point aborted for
 methods of odd length

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 0c93473..a2067ae 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -553,7 +553,7 @@ int method::symmetry_point() const
 int method::symmetry_point(bell b) const
 {
   const int n( size() );
-  assert( n%2 == 0 );
+  if ( n%2 ) return -1;
   for ( int i=0; i < (n%2==0 ? n/2 : n); ++i )
     // Try m[i] as the sym point
     if (is_palindromic_about(b, i))
-- 
2.43.0


From 4167db80b40e93ac61c67dc4c54ddd2093137453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 009/183] fix: method::is_palindromic_about() read past the end
 of the method

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index a2067ae..086ade3 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -232,7 +232,7 @@ bool method::is_palindromic_about(bell b, int i) const
   }
 
   // We're now at the other symmetry point.  Is there a place there too?
-  if(b * (*this)[i+(n%2==0 ? n/2 : n/2+1)] != b) 
+  if(b * (*this)[(i+(n%2==0 ? n/2 : n/2+1)) % n] != b) 
     return false;
 
   return true;
-- 
2.43.0


From 0d980be98cdf7fa59c201d632f1c31947d9ffdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 010/183] fix: method::set_untitled() only had an effect the
 first time

---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 086ade3..02a97c0 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -106,7 +106,8 @@ const char *method::txt_double       = "Double";
 const char *method::txt_little       = "Little";
 
 void method::set_untitled(string const& str) {
-  static string str_untitled = str;
+  static string str_untitled;
+  str_untitled = str;
   txt_untitled = str_untitled.c_str();
 }
 
-- 
2.43.0


From 715dfe6503eda365f2cc5f1ac060324753507a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 011/183] fix: the NUL character was accepted as a bell symbol

---
 ringing/bell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 1df6691..473f6b8 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -96,7 +96,7 @@ bell::invalid::invalid()
 bool bell::is_symbol(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
-  if ( strchr(symbols, c) ) return true;
+  if ( c && strchr(symbols, c) ) return true;
 
   // I/1 and O/0 ambiguities:
   switch (c) {
@@ -113,7 +113,7 @@ bell bell::read_char(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
   bell b;
-  if ( char const* cp = strchr(symbols, c) )
+  if ( char const* cp = c ? strchr(symbols, c) : NULL )
     b.x = cp - symbols;
   else {
     // I/1 and O/0 ambiguities:
-- 
2.43.0


From c55c5a32ae0892751a7560ff4b4a8529ef56e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 012/183] fix: reading a bell could take I or 1 for the symbol
 0

---
 ringing/bell.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 473f6b8..8b11568 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -118,10 +118,10 @@ bell bell::read_char(char c)
   else {
     // I/1 and O/0 ambiguities:
     switch (c) {
-      case 'I': if (is_symbol('1')) return read_char('1');
-      case '1': if (is_symbol('I')) return read_char('I');
-      case 'O': if (is_symbol('0')) return read_char('0');
-      case '0': if (is_symbol('O')) return read_char('O');
+      case 'I': if (is_symbol('1')) return read_char('1'); break;
+      case '1': if (is_symbol('I')) return read_char('I'); break;
+      case 'O': if (is_symbol('0')) return read_char('0'); break;
+      case '0': if (is_symbol('O')) return read_char('O'); break;
     }
 #if RINGING_USE_EXCEPTIONS
     throw invalid();
-- 
2.43.0


From ee2dd73986d6a35d0418ef30d36e7fbb1b0b7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 013/183] fix: the bell {0} was accepted and read as bell 256

---
 ringing/bell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 8b11568..282d7bc 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -144,7 +144,7 @@ bell bell::read_extended(char const* str, char const** endp)
   } else {
     unsigned long val = strtoul(++str, const_cast<char**&>(endp), 10);
     while (isspace(**endp)) ++*endp;
-    if ( *str == '-' || **endp != '}' ||
+    if ( *str == '-' || **endp != '}' || val == 0 ||
          RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
          && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
@@ -178,7 +178,7 @@ RINGING_API istream& operator>>(istream& i, bell& b)
       else {
         i.get(); // drop the '{'
         unsigned long val;  i >> noskipws >> val;
-        if ( i.get() != '}' ||
+        if ( i.get() != '}' || val == 0 ||
              RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
              && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
-- 
2.43.0


From bb569efcbd6ad176f5f8f892d5201f11fb4c2db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 014/183] fix: extracting a row failed at the end of the stream
 and changed the row on malformed bells

---
 ringing/row.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 21dcc4c..01c9800 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -565,13 +565,18 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    while ( i ) {
+      // Only peek once, as peeking again at the end of file sets failbit
+      const int c = i.peek();
+      if ( c != '{' && !bell::is_symbol(c) ) break;
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
     }
 
-    if ( bells.empty() )
+    if ( !i )
+      ; // The last bell was malformed
+    else if ( bells.empty() )
       i.setstate( ios_base::failbit ); 
     else {
 #if RINGING_USE_EXCEPTIONS 
-- 
2.43.0


From 7139229eee25a04c6f6eddb94f7fa212ebb208d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 015/183] fix: stepping back from the end of an extent left the
 iterator at its end

---
 ringing/extent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 5ae46dc..22aec8d 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -74,6 +74,7 @@ extent_iterator &extent_iterator::operator--()
     for ( unsigned i=nh; i<nw+nh; ++i ) v[i] = nw+nh-1 - i + nh;
     for ( unsigned i=nw+nh; i<nt; ++i ) v[i] = i;
     r.swap(v);
+    end_ = false;
   } 
   else {
     vector<bell> v; r.swap(v);
-- 
2.43.0


From 7a27097c3c79e778ac321c5f911dda14207160b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 016/183] fix: position_in_extent() read past the end of a row
 on fewer bells

---
 ringing/extent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 22aec8d..ba17a17 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -105,10 +105,10 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
 
   if (b > nt) 
     throw out_of_range( "Row has too many bells" );
-  for ( size_t i=0; i<nh; ++i )
+  for ( size_t i=0; i<nh && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed trebles" );
-  for ( size_t i=nh+nw; i<nt; ++i )
+  for ( size_t i=nh+nw; i<nt && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed tenors" );
 
@@ -117,7 +117,7 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
   {
     x *= nw + nh - i;
     for ( size_t j=i+1; j<nw+nh; ++j )
-      if ( j < b && r[j] < r[i] ) 
+      if ( i < b && j < b && r[j] < r[i] ) 
         ++x;
   }
 
-- 
2.43.0


From d97f9fdf468a650050a89a2189d9c03c325a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 017/183] fix: a row that was not itself in a multtab with a
 post group was not found

---
 ringing/multtab.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/multtab.cpp b/ringing/multtab.cpp
index f786637..ce153dc 100644
--- a/ringing/multtab.cpp
+++ b/ringing/multtab.cpp
@@ -90,13 +90,13 @@ row multtab::make_post_representative( const row& r ) const
 
 row multtab::make_representative( const row& r ) const
 {
-  row res(r);
+  row res;
 
   for ( group::const_iterator i( pends.begin() ), e( pends.end() ); 
         i != e; ++i )
     {
       row const x( make_post_representative( *i * r ) );
-      if ( x.bells() && x < res )
+      if ( x.bells() && ( res.bells() == 0 || x < res ) )
         res = x;
     }
 
-- 
2.43.0


From c9b9889b03ca2385b3e5ae1ed00c32524bafe45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 018/183] fix: hcf() divided by zero when one argument was zero

---
 ringing/mathutils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/mathutils.cpp b/ringing/mathutils.cpp
index f06602a..366b36c 100644
--- a/ringing/mathutils.cpp
+++ b/ringing/mathutils.cpp
@@ -54,6 +54,7 @@ int hcf(int a, int b)
 {
   // Make sure we have a >= b
   if(a < b) RINGING_PREFIX_STD swap(a, b);
+  if(b == 0) return a;
 
   int r;
   do {
-- 
2.43.0


From 8bee62205edcfad89e66149d9a32fe9307658b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 019/183] fix: lcm() overflowed when the product of its
 arguments did

---
 ringing/mathutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/mathutils.h b/ringing/mathutils.h
index d240f44..fbf55d7 100644
--- a/ringing/mathutils.h
+++ b/ringing/mathutils.h
@@ -53,7 +53,7 @@ inline RINGING_API int lcm(int a, int b)
   // Check for a couple of quick cases
   if(a == 1) return b;
   if(b == 1) return a;
-  return a * b / hcf(a,b);
+  return a / hcf(a,b) * b;
 }
 
 RINGING_API unsigned factorial(unsigned n);
-- 
2.43.0


From fa197a08d64cba9dbb84c39183ff71ed8c05c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 020/183] fix: landau(0) converted a NaN to an integer

---
 ringing/mathutils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ringing/mathutils.cpp b/ringing/mathutils.cpp
index 366b36c..df6fdba 100644
--- a/ringing/mathutils.cpp
+++ b/ringing/mathutils.cpp
@@ -199,6 +199,8 @@ unsigned next_prime(unsigned n)
 // larger values of n, but that seems needless complex for our purposes.
 unsigned landau(unsigned const n)
 {
+  if (n == 0) return 1;
+
   vector<unsigned> g(n+1, 1);
   // Strictly speaking, this bound is only valid for n>=5.  Adding 1 
   // empirically fixes it for n<5.
-- 
2.43.0


From 652bd7c2a65bb9672cb2ca8de9cfd8908b901d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 021/183] fix: half-lead falseness tables of methods only used
 a quarter of the lead

---
 ringing/falseness.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..26ae114 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -104,10 +104,8 @@ void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
 
 static int row_block_flags( int flags )
 {
-  int rb_flags = row_block::no_final_lead_head;
-  if (flags & falseness_table::half_lead_only) 
-    rb_flags |= row_block::half_lead_only;
-  return rb_flags;
+  // NB init() itself discards the second half if half_lead_only is set
+  return row_block::no_final_lead_head;
 }
 
 falseness_table::falseness_table( const method &m, int flags )
-- 
2.43.0


From 14e1573a09b80c7e202cd2539a1d775334b2fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 022/183] fix: default-constructed falseness tables had
 uninitialised flags

---
 ringing/falseness.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 26ae114..ba7b5a6 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -63,7 +63,7 @@ static bool are_tenors_together( const row &r, int working_bells )
 }
 
 falseness_table::falseness_table()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
@@ -151,7 +151,7 @@ group falseness_table::generate_group() const
 }
 
 false_courses::false_courses()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 
-- 
2.43.0


From 7594e12f078cf2b161561c58fbc37ae4ef5a7083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 023/183] fix: a full proof stopped collecting failures at the
 first false row

---
 ringing/proof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..fcf0982 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -248,10 +248,11 @@ bool proof<RowIterator>::prove(RowIterator true_first,
 {
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
   istrue = true;
+  where.clear();
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first ) && istrue;
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first ) && istrue;
   return istrue;
 }
 
-- 
2.43.0


From ead5455164b1a4e099d354729afe29e716bba2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 024/183] fix: a branch of a false prover claimed to be true

---
 ringing/proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..84bf1bc 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -177,6 +177,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
-- 
2.43.0


From ad1d1d7fe73e2cd77b2bce89f00171a0d8190595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 025/183] fix: provers forgot or kept the wrong lines of
 repeated rows

---
 ringing/proof.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 84bf1bc..7310ff2 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -80,9 +80,8 @@ bool prover::add_row( const row &r )
 
   range const& rng = ranges.back();
 
-  mmap::iterator i( m.insert( rng.first == m.begin() ? m.begin() 
-			                             : prior( rng.first ),
-			      mmap::value_type( r, ++lineno ) ) );
+  // Keep the lines on which each row occurs in order
+  mmap::iterator i( m.insert( rng.second, mmap::value_type( r, ++lineno ) ) );
 
   if ( n > 1 )
     ++dups; 
@@ -109,13 +108,15 @@ bool prover::add_row( const row &r )
 	  // in this range, we explicitly add it by hand afterwards.
 	  l._row = r;
 	  bool added_i = false;
-	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
-	      {
-		if ( j == i ) added_i = true;
-		l._lines.push_back( j->second );
-	      }
-	  }
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri )
+	    {
+	      for ( mmap::iterator j = ri->first; j != ri->second; ++j )
+		{
+		  if ( j == i ) added_i = true;
+		  l._lines.push_back( j->second );
+		}
+	    }
 	  if (!added_i) 
 	    l._lines.push_back( i->second );
 
@@ -163,7 +164,7 @@ void prover::remove_row( const row& r )
 	    if ( j->_row == r )
 	      {
 		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+                if ( (int) n - 1 <= max_occurs ) fi->erase(j);
                 break;
 	      }
         }
-- 
2.43.0


From 4d37a39fa63a57aedc926c7f9a2ab65dd6249ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 026/183] fix: finding false courses never ended when the tenor
 did not come home

---
 ringing/falseness.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index ba7b5a6..200d13f 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -177,8 +177,16 @@ public:
 	lead *= fc.lh;
 	      
 	// Transpose to the course head
+	row const c0( c );
 	while ( c[ f.bells() - 1 ] != f.bells() - 1 ) 
-	  c *= fc.lh;
+	  {
+	    c *= fc.lh;
+	    if ( c == c0 ) break;
+	  }
+
+	// The tenor may never come home, in which case it isn't a course head
+	if ( c[ f.bells() - 1 ] != f.bells() - 1 )
+	  continue;
 	      
 	if ( ( fc.flags & in_course_only ) && c.sign() == -1 )
 	  continue;
-- 
2.43.0


From 02cd1d270190cb171e2f4c6687bef935e6adb57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 027/183] fix: proof's constructors used the failure details
 before they were constructed

---
 ringing/proof.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index fcf0982..bd08cc6 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,10 @@ public:
   int operator!() const { return !istrue; }
 
 private:
-  bool istrue;                   // Well, is it true or not?
+  // NB The constructors initialise istrue by proving the touch, so the
+  // details of where it failed must be declared (and constructed) first.
   failinfo where;                // Details of where it failed.
+  bool istrue;                   // Well, is it true or not?
 }; 
 
 /******************************************
-- 
2.43.0


From 1241ff78c82269a5bc6f110822aa5eadd4b4878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 028/183] fix: music patterns missed rows when a star stood for
 nothing or for many bells

---
 ringing/music.cpp | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..55cac44 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -279,20 +279,19 @@ void music_node::add(const string &mds, unsigned int i,
       if (i+1 == mds.size())
         detailsmatch.push_back(key);
 
-      // Is this the last * in the pattern?  If so, it is handled by
-      // add_to_subtree().
-      else if (mds.find('*', i + 1) == string::npos) 
-        add_to_subtree(0, mds, i, key, pos, true);
-          
       else {
-        // We have something like '*456*'
-        // First ignore the star and just move on.
-        add(mds, i + 1, key, pos);
-        // Now deal with the star
-        if (mds.size() - i >= pos)
+        // How many bells do we need for the rest of the pattern?
+        const unsigned int needed = count_bells( mds.substr(i + 1) );
+
+        // The star can match nothing.  If this is the last star in the 
+        // pattern, the rest of the pattern must reach the end of the row.
+        if (pos + needed == bells || 
+            (pos + needed < bells && mds.find('*', i + 1) != string::npos))
+          add(mds, i + 1, key, pos);
+
+        // Or it can match (at least) this bell.
+        if (pos + needed < bells)
           add_to_subtree(0, mds, i, key, pos, true);
-        else
-          add_to_subtree(0, mds, i, key, pos, false);
       }
     }
     else throw music_details::invalid_regex(mds, 
@@ -307,14 +306,8 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
 
   if (process_star)
     {
-      // We are to process star data star.
-      if (bells - pos == count_bells(mds.substr(i, mds.size() - i)) + 1 &&
-	  mds.find('*', i + 1) >= mds.size())
-	// There are now only numbers to go.
-	j->add(mds, i + 1, key, pos + 1);
-      else
-	// We haven't got to the last * position yet, so carry on.
-	j->add(mds, i, key, pos + 1);
+      // The star has matched this bell: it may match more of them.
+      j->add(mds, i, key, pos + 1);
     }
   else
     {
-- 
2.43.0


From d47bd3ef35f112886bcd047a711ecfee71c9a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 029/183] fix: a row matching a music pattern in several ways
 was counted several times

---
 ringing/music.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 55cac44..7c2b291 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -49,7 +49,8 @@ public:
            unsigned int pos);
 
   bool match(const row &r, unsigned int pos, vector<music_details> &results, 
-             const EStroke &stroke, vector<bell> const& wildcard_matches) const;
+             const EStroke &stroke, vector<bell> const& wildcard_matches,
+             vector<bool> &counted) const;
 
   // Helper function to work with cloning_pointer.
   music_node* clone() const { return new music_node(*this); }
@@ -318,7 +319,8 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
 
 bool music_node::match(const row &r, unsigned int pos, 
                        vector<music_details> &results, const EStroke &stroke, 
-                       vector<bell> const& wilds) const
+                       vector<bell> const& wilds,
+                       vector<bool> &counted) const
 {
   bool matched = false;
 
@@ -329,7 +331,10 @@ bool music_node::match(const row &r, unsigned int pos,
     for (unsigned k = pos; k < r.bells(); ++k)
       wilds2.push_back(r[k]);
 
-    results[*i].increment(stroke);
+    // The row might match the pattern in several ways: only count it once.
+    if (!counted[*i])
+      results[*i].increment(stroke);
+    counted[*i] = true;
     results[*i].last_wildcards = wilds2;
     matched = true;
   }
@@ -341,13 +346,14 @@ bool music_node::match(const row &r, unsigned int pos,
     vector<bell> wilds2(wilds); 
     wilds2.push_back(r[pos]);
 
-    matched = j->second->match(r, pos + 1, results, stroke, wilds2) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds2, counted) || matched;
   }
     
   // Is there a subnode matching this specific bell?
   j = subnodes.find(r[pos] + 1);
   if (j != subnodes.end())
-    matched = j->second->match(r, pos + 1, results, stroke, wilds) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds, counted) 
+      || matched;
 
   return matched;
 }
@@ -413,8 +419,9 @@ bool music::process_row(const row &r, bool back)
   for (music_details& md : info)
     md.last_wildcards.clear();
 
+  vector<bool> counted( info.size() );
   return top_node->match(r, 0, info, back ? eBackstroke : eHandstroke,
-                         vector<bell>());
+                         vector<bell>(), counted);
 }
 
 // Return the total score for all items
-- 
2.43.0


From 9254388f8f491365cfb10fec73d3d6a1e81e0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 030/183] fix: matching music read past the end of the row

---
 ringing/music.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 7c2b291..d529452 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -339,6 +339,10 @@ bool music_node::match(const row &r, unsigned int pos,
     matched = true;
   }
 
+  // Are there no more bells in the row?
+  if (pos >= (unsigned int) r.bells())
+    return matched;
+
   // Is there a wildcard subnode at index 0?
   BellNodeMap::const_iterator j = subnodes.find(0);
   if (j != subnodes.end()) {
-- 
2.43.0


From c16630419f580ac516ba583311b9caaaff60a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 031/183] fix: music::set_bells() kept matching for the old
 number of bells

---
 ringing/music.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index d529452..69e3445 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -43,7 +43,6 @@ class music_node
 public:
   // Have to know how many bells there are
   music_node(unsigned int b) : bells(b) {} 
-  void set_bells(unsigned int b);
 
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
@@ -214,16 +213,6 @@ bool music_details::check_bells( unsigned bells ) const
 // function definitions for MUSIC_NODE
 // ********************************************************
 
-void music_node::set_bells(unsigned int b)
-{
-  bells = b;
-
-  // and iterate over each subnode setting it there
-  for (BellNodeMap::iterator i=subnodes.begin(), e=subnodes.end(); i!=e; ++i)
-    if (i->second)
-      i->second->set_bells(b);
-}
-
 // "mds" is the pattern as a string, and "i" is the current character offset
 // into it (as we are called recursively).  "key" is used to identify which
 // pattern matched, if we have several patterns.  "pos" is the logical offset
@@ -403,8 +392,11 @@ void music::set_bells(unsigned int new_b)
     for (iterator i=info.begin(), e=info.end(); i!=e; ++i)
       i->check_bells(new_b);
 
-    top_node->set_bells(new_b);
+    // The tree depends on the number of bells, so make it again.
     b = new_b;
+    top_node.reset( new music_node(b) );
+    for (size_type i=0; i<info.size(); ++i)
+      top_node->add(info[i].get(), 0, i, 0);
   }
 }
 
-- 
2.43.0


From e236c72c32f3f6a66a9d90fdc1677821f18c5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 032/183] fix: music::clear() left the old patterns behind

---
 ringing/music.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 69e3445..ca6db27 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -373,7 +373,7 @@ void music::clear(unsigned int new_b)
 {
   if (new_b) b = new_b;
   top_node.reset( new music_node(b) );
-  reset_music();
+  info.clear();
 }
 
 // Specify the music and add it into the search structure
-- 
2.43.0


From 81f1cb6aed8991affd97ee0014fa995e1e3fd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 033/183] fix: a plus sign in a music score was rejected

---
 ringing/music.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index ca6db27..c4d36b6 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -586,7 +586,8 @@ void music::add_scored_music_string( string const& s )
             scoreh = atoi( pattern.c_str() );
             comma = j;
           }
-        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' )
+        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' 
+                  && pattern[j] != '+' )
           break;
     }
 
-- 
2.43.0


From c457bf06f0a9bceacaa0b3bcdbe43fcea561decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 034/183] fix: the number of rows a wildcard pattern can match
 was often wrong

---
 ringing/row_wildcard.cpp | 445 +++++++++++----------------------------
 ringing/row_wildcard.h   |  16 +-
 2 files changed, 129 insertions(+), 332 deletions(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 2594ff2..8edb386 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -27,8 +27,16 @@
 #include <ringing/row_wildcard.h>
 #include <ringing/bell.h>
 
+#if RINGING_OLD_INCLUDES
+#include <algo.h>
+#include <map.h>
+#include <vector.h>
+#else
+#include <algorithm>
+#include <map>
+#include <vector>
+#endif
 #include <string>
-#include <cassert>
 
 RINGING_START_NAMESPACE
 
@@ -66,172 +74,6 @@ bool row_wildcard::set_bells( unsigned bells )
   return true;
 }
 
-RINGING_START_ANON_NAMESPACE
-
-// Count 1 for each '?', bell symbol, or [...]; and none for a '*'.
-unsigned int count_bells(const string &s)
-{
-  unsigned int total = 0;
-  string::const_iterator i;
-  bool in_brackets = false;
-  for (i = s.begin(); i != s.end(); i++)
-    {
-      if (*i == '?')
-	{
-	  total++;
-	}
-      else if (*i == '[')
-	{
-	  in_brackets = true;
-	}
-      else if (*i == ']')
-	{
-	  total++; // [...] = 1 bell.
-	  in_brackets = false;
-	}
-      else if ( !in_brackets && bell::is_symbol(*i) )
-	{
-	  total++;
-	}
-    }
-  return total;
-}
-
-string expand_star( string const& src, unsigned star_pos, unsigned count )
-{
-  string expanded( src, 0, star_pos );
-  expanded.append( count, '?' );
-  expanded.append( src, star_pos + 1, src.size() - star_pos - 1);
-  return expanded;
-}
-
-RINGING_END_ANON_NAMESPACE
-
-void row_wildcard::copy_choices( string& dest, 
-                                 string const& src, unsigned& pos ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  dest.append( src, pos, p_end-pos+1 );
-  pos = p_end;
-}
-
-bool row_wildcard::copy_if_choices_contains( string& dest, 
-                                             string const& src, unsigned& pos,
-                                             char sym ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  unsigned p_sym = src.find( sym, pos );
-  if ( p_sym > p_end ) return false;
-  dest += sym;
-  pos = p_end;
-  return true;
-}
-
-bool row_wildcard::copy_choices_intersection( string& dest, 
-                                              string const& a, unsigned& ai,
-                                              string const& b, unsigned& bi )
-                                                                         const
-{
-  assert( a[ai] == '[' && b[bi] == '[' );
-  dest += '['; 
-
-  unsigned b_init = bi;
-  bool had_one = false;
-  for ( ++ai; a[ai] != ']'; ++ai ) {
-    bi = b_init;
-    if ( copy_if_choices_contains( dest, b, bi, a[ai] ) ) 
-      had_one = true;
-  }
-
-  dest += ']';
-  return had_one;
-}
-
-
-// This is not a general purpose intersection function -- it only 
-// parses A and B up to the first '*' and assumes that they are 
-// identical after that.  Returns false if the intersection is
-// necessarily zero.
-bool row_wildcard::make_intersection( string& dest, 
-                                      string const& a, string const& b ) const
-{
-  unsigned ai = 0, bi = 0;
-  unsigned an = a.find('*'), bn = b.find('*');
-  assert( an != string::npos && bn != string::npos );
-  assert( a.substr(an) == b.substr(bn) );
-
-  while ( ai != an || bi != bn ) 
-  {
-    bool a_wild = ( a[ai] == '*' || a[ai] == '?' );
-    bool b_wild = ( b[bi] == '*' || b[bi] == '?' );
-
-    bool a_bell = bell::is_symbol( a[ai] );
-    bool b_bell = bell::is_symbol( b[bi] );
-
-    bool a_set  = ( a[ai] == '[' );
-    bool b_set  = ( b[bi] == '[' );
-
-    if ( a_wild && b_wild ) 
-      dest += '?';
-
-    else if ( a_wild && b_bell )
-      dest += b[bi];
-    else if ( b_wild && a_bell )
-      dest += a[ai];
-
-    else if ( a_bell && a_bell ) {
-      if ( a[ai] == b[bi] ) 
-        dest += a[ai];
-      else return false;
-    }
-
-    else if ( a_wild && b_set ) 
-      copy_choices( dest, b, bi );  // bi now refers to ']'
-    else if ( b_wild && a_set ) 
-      copy_choices( dest, a, ai );  // bi now refers to ']'
-
-    else if ( a_bell && b_set ) {
-      if ( !copy_if_choices_contains(dest, b, bi, a[ai]) ) 
-        return false;
-    }
-    else if ( b_bell && a_set ) {
-      if ( !copy_if_choices_contains(dest, a, ai, b[bi]) ) 
-        return false;
-    }
-
-    else if ( a_set && b_set ) {
-      if ( !copy_choices_intersection(dest, a, ai, b, bi) )
-        return false;
-    }
-
-    else RINGING_THROW_OR_RETURN( 
-      row_wildcard::invalid_pattern( string(), 
-        string("Unknown symbol: ") 
-          + ( a_set || a_wild || a_bell ? b[bi] : a[ai] ) ),
-      false );
-
-
-    if ( ai < an ) ++ai;
-    if ( bi < bn ) ++bi;
-  }
-
-  dest += a.substr(an);
-  return true;
-}
-
-
 // Function to provide a brief check if an expression is valid/invalid.
 bool row_wildcard::check_expression() const
 {
@@ -279,180 +121,149 @@ bool row_wildcard::check_expression() const
 
 RINGING_ULLONG row_wildcard::count( unsigned bells ) const
 {
-  int q = 0;
   if (!bells) bells = b;
 
   if (!bells)
     RINGING_THROW_OR_RETURN(
       invalid_pattern(pat, "Number of bells unspecified"), 0 );
     
-  return possible_matches(bells, 0, pat, q);
+  return possible_matches(bells);
+}
+
+RINGING_START_ANON_NAMESPACE
+
+// One element of the pattern: either a '*', or the set of bells that are 
+// allowed in one place.
+struct pattern_element 
+{
+  pattern_element( bool star, unsigned bells, bool any ) 
+    : star(star), allowed(bells, any) {}
+
+  bool star;
+  vector<bool> allowed;
+};
+
+// After a '*' has been reached, it can also match nothing.
+void skip_stars( vector<pattern_element> const& elts, vector<bool>& reached )
+{
+  for ( size_t i=0; i<elts.size(); ++i )
+    if ( reached[i] && elts[i].star )
+      reached[i+1] = true;
 }
 
+RINGING_END_ANON_NAMESPACE
+
 // This function is subtle: counting the number of possible matches
 // is harder than it might seem.  E.g. we need to be able to 
 // determine that [12][23][34][14] only actually has two matches --
-// once the first bell has been chosen, the rest is forced.
+// once the first bell has been chosen, the rest is forced -- and that
+// a row can match a pattern such as '*[35]*' in more than one way.
 //
-// The function is called recursively to iterate through the pattern string
-// which is passed in S, position by position, where POS is the offset into
-// S of the character we're considering.   When a '[...]' is encountered,
-// recurse try each possibility in turn, thus the leading substring of S
-// -- i.e. the section [0, POS) -- never contains a [].  When a '*' is 
-// encountered, we rewrite it as a sequence of '?'s.  If multiple '*'s are
-// present, we try each possibility separately -- and, critically, subtract
-// the double-counting due to a single row matching multiple times (see 
-// comment below for discussion).  Q keeps track of the number of '?'s 
-// already found; we multiply by Q each time we find one with the overall 
-// result of Q! for a series of Q '?'s.
+// We work along the row one place at a time, and keep track of (i) all the 
+// elements of the pattern that we may have got to, and (ii) the bells that 
+// have been used.  Between them these determine how the row can continue, 
+// so it is enough to know how many ways there are of getting to each such 
+// state.  Bells that can appear in exactly the same parts of the pattern are 
+// interchangeable, and we only need to know how many of them were used.
 //
-RINGING_ULLONG row_wildcard::possible_matches
-  ( unsigned int bells, unsigned int pos, const string &s, int &q ) const
+RINGING_ULLONG row_wildcard::possible_matches( unsigned int bells ) const
 {
-  if (pos >= s.size())
+  // Parse the pattern
+  vector<pattern_element> elts;
+  bool had_star = false;
+  for ( string::const_iterator i = pat.begin(); i != pat.end(); ++i )
     {
-      // Elsewhere (and traditionally in the music_details class) we
-      // consider a overly-short pattern without a star (e.g. '5') to
-      // have an implicit trailing '*'.  For consistency, lets do that here.
-      if ( count_bells(s) < bells )
-        return possible_matches( bells, pos, s + '*', q );
-      else
-        return 1;
+      elts.push_back( pattern_element( *i == '*', bells, *i == '?' ) );
+      if ( *i == '*' ) 
+        had_star = true;
+      else if ( *i == '[' ) 
+        {
+          for ( ++i; *i != ']'; ++i )
+            if ( bell::read_char(*i) < bells )
+              elts.back().allowed[ bell::read_char(*i) ] = true;
+        }
+      else if ( *i != '?' && bell::read_char(*i) < bells )
+        elts.back().allowed[ bell::read_char(*i) ] = true;
     }
-  else
-    {
-      if (bell::is_symbol(s[pos]))
-	{
-	  return possible_matches(bells, pos + 1, s, q);
-	}
-      else if (s[pos] == '?')
-	{
-	  int new_q = ++q;
-	  return possible_matches(bells, pos + 1, s, q) * new_q;
-	}
-      else if (s[pos] == '[')
-	{
-	  RINGING_ULLONG total = 0;
 
-	  // Replace the [...] with each item in it and 
-	  // pass through again.
-	  unsigned int lastpos = s.find(']', pos + 1);
-	  for (unsigned int i = pos + 1; i < lastpos; i++)
-	    {
-	      string modified(s, 0, pos);
-	      unsigned int newpos = modified.size();
-	      // Only do this if the bell isn't in the string already,
-              // and if it isn't already in the alternatives group.  Thus,
-              // [5][5]* will never match anything, and [55]* doesn't double
-              // count rows beginning with 5.
-	      if (modified.find(s[i]) == string::npos &&
-                  s.find(s[i],pos) == i)
-		{
-		  modified += s[i];
-		  modified += s.substr(lastpos + 1, s.size() - lastpos - 1);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, newpos, modified, q);
-		  q = orig_q;
-		}
-	    }
+  // Elsewhere (and traditionally in the music_details class) we
+  // consider a overly-short pattern without a star (e.g. '5') to
+  // have an implicit trailing '*'.  For consistency, lets do that here.
+  if ( !had_star && elts.size() < bells )
+    elts.push_back( pattern_element( true, bells, false ) );
 
-	  return total;
-	}
-      else if (s[pos] == '*')
-	{
-          // Two consecutive '*'s should be replaced with a single one
-          // as the code to handle the intersection between moving sections
-          // is inefficient and this is one of the worst cases.
-          if ( s.size() > pos + 1 && s[pos+1] == '*' ) 
-            {
-              string modified( s, 0, pos );
-              modified.append( s, pos + 1, s.size() - pos - 1 );
- 
-              return possible_matches( bells, pos, modified, q );
-            }
-
-          // The largest number of '?'s that this could represent.
-          const unsigned n = bells - count_bells(s);
-
-	  if ( s.size() == pos + 1 || s.find('*', pos + 1) == string::npos )
-	    {
-	      // Pattern has just 1 star, so replace with maximum '?'
-	      return possible_matches(bells, pos, expand_star(s, pos, n), q);
-	    }
-	  else
-	    {
-       	      // More than 1 star. Replace string with 0, 1, 2... '?'
-	      // and calculate at each stage
-              //
-              // However, just doing this is not sufficient as it would
-              // have '*[35]*' match 240 different rows on five bells.
-              // The problem arises because we fail to handle the overlap 
-              // between '*5*' and '*3*'.  Both correctly match 120 times, 
-              // but that does not mean that '*[53]*' should match 120+120 
-              // times.
-              //
-              // When we expand the first '*' in '*[35]*' we sum the matches
-              // '[35]*' + '?[35]*' + '??[35]*' + '???[35]*' + '????[35]*'.
-              // However, we also need to subtract the intersections
-              // between each of the 5*4/2=10 pairs.  For example, the first
-              // intersection '[35]*' AND '?[35]*' is '[35][35]*' which 
-              // matches 2x6=12 times.  The other nine intersections 
-              // contribute the same giving a total of 240-10*12 = 120.
-              //
-              // However, as a useful optimisation, we can observe that
-              // the intersections are all zero iff the fragment of the
-              // pattern between the two '*'s includes a fixed bell.   For
-              // example, '*5*3*1*' has a fixed bell between each pair of 
-              // '*'s and so is correctly calculated (20 on five bells)
-              // without calculating the intersection.  As calculating
-              // the intersection is O(BELLS^2), this is best avoided 
-              // where possible.
-              //
-              bool need_intersection = true;
-              {
-                size_t frag_end = s.find('*', pos + 1);
-                bool in_bracket = false;
-                bool had_fixed_bell = false;
-                for ( unsigned i = pos+1; i < frag_end; ++i )
-                  if ( s[i] == '[' ) 
-                    in_bracket = true;
-                  else if ( s[i] == ']' ) 
-                    in_bracket = false;
-                  else if ( !in_bracket && bell::is_symbol(s[i]) ) 
-                    need_intersection = false;
-              }
+  // Find the classes of interchangeable bells.
+  vector< vector<bool> > classes;
+  vector<unsigned> class_sizes;
+  for ( unsigned b = 0; b < bells; ++b )
+    {
+      vector<bool> where( elts.size() );
+      for ( size_t i = 0; i < elts.size(); ++i )
+        where[i] = elts[i].allowed[b];
+
+      size_t const c = find( classes.begin(), classes.end(), where ) 
+                         - classes.begin();
+      if ( c == classes.size() )
+        {
+          classes.push_back( where );
+          class_sizes.push_back( 0 );
+        }
+      ++class_sizes[c];
+    }
+  
+  typedef pair< vector<bool>, vector<unsigned> > state;
+  typedef map< state, RINGING_ULLONG > state_map;
 
-	      RINGING_ULLONG total = 0;
+  state start( vector<bool>( elts.size() + 1 ), 
+               vector<unsigned>( classes.size() ) );
+  start.first[0] = true;
+  skip_stars( elts, start.first );
 
-  	      for ( unsigned i = 0; i <= n; ++i )
-		{
-		  string modified = expand_star(s, pos, i);
+  state_map states;
+  states[ start ] = 1;
 
-	          int orig_q = q;
-		  total += possible_matches(bells, pos, modified, q);
-		  q = orig_q;
+  for ( unsigned place = 0; place < bells; ++place )
+    {
+      state_map next_states;
+
+      for ( state_map::const_iterator s = states.begin(), e = states.end(); 
+            s != e; ++s )
+        for ( size_t c = 0; c < classes.size(); ++c )
+          {
+            unsigned const available 
+              = class_sizes[c] - s->first.second[c];
+            if ( !available ) continue;
+
+            state next( vector<bool>( elts.size() + 1 ), s->first.second );
+            ++next.second[c];
+
+            bool possible = false;
+            for ( size_t i = 0; i < elts.size(); ++i )
+              if ( s->first.first[i] )
+                {
+                  if ( elts[i].star ) 
+                    next.first[i] = possible = true;
+                  else if ( classes[c][i] ) 
+                    next.first[i+1] = possible = true;
+                }
+
+            if ( possible ) 
+              {
+                skip_stars( elts, next.first );
+                next_states[ next ] += s->second * available;
+              }
+          }
 
-                  for ( unsigned j = 0; need_intersection && j < i; ++j )
-                    {
-                      string intersect;
-                      if ( make_intersection
-                             ( intersect, modified, expand_star(s,pos,j) ) )
-                        total -= possible_matches( bells, pos, intersect, q );
+      states.swap( next_states );
+    }
 
-                      q = orig_q;
-                    }
-		}
+  RINGING_ULLONG total = 0;
+  for ( state_map::const_iterator s = states.begin(), e = states.end(); 
+        s != e; ++s )
+    if ( s->first.first[ elts.size() ] )
+      total += s->second;
 
-	      return total;
-	    }
-	}
-      else
-	{
-          RINGING_THROW_OR_RETURN( 
-            invalid_pattern(pat, string("Unknown character: ") + s[pos]), 0 );
-	}
-    }
+  return total;
 }
 
 #if RINGING_USE_EXCEPTIONS
diff --git a/ringing/row_wildcard.h b/ringing/row_wildcard.h
index 18bf7f9..0b707f8 100644
--- a/ringing/row_wildcard.h
+++ b/ringing/row_wildcard.h
@@ -72,21 +72,7 @@ public:
 private:
   bool check_expression() const;
 
-  void copy_choices
-    ( string& dest, string const& src, unsigned& pos ) const;
-
-  bool copy_if_choices_contains
-    ( string& dest, string const& src, unsigned& pos, char sym ) const;
-
-  bool copy_choices_intersection 
-    ( string& dest, string const& a, unsigned& ai,
-                    string const& b, unsigned& bi ) const;
-
-  bool make_intersection
-    ( string& dest, string const& a, string const& b ) const;
-
-  RINGING_ULLONG possible_matches
-    ( unsigned int bells, unsigned int pos, const string &s, int &q ) const;
+  RINGING_ULLONG possible_matches( unsigned int bells ) const;
 
   // Data members
   string pat;
-- 
2.43.0


From 3a81e5705db160d770a6e3991d3ef28433200775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 035/183] fix: a table_search constructor used its flags before
 they were initialised

---
 ringing/table_search.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..961247b 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -96,8 +96,7 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
   : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+    lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
-- 
2.43.0


From b88f6527221c06cc90530113d47738ee7b7e8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 036/183] fix: iterating over a touch dereferenced the end of
 an empty child

---
 ringing/touch.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..688897c 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -84,9 +84,20 @@ private:
   friend class touch_child_list;
   iterator(list<entry>::const_iterator j, 
 	   list<entry>::const_iterator k) : i(j), last(k), count(0)
-  { if(i != last) { ci = (*i).second->begin(); } }
+  { start(); }
+
+  // Move to the first change of this child, skipping any empty children
+  void start();
 };
 
+void touch_child_list::iterator::start()
+{
+  for( ; i != last; ++i ) {
+    ci = (*i).second->begin();
+    if( (*i).first > 0 && ci != (*i).second->end() ) break;
+  }
+}
+
 
 touch_node::iterator_base& touch_child_list::iterator::operator++()
 {
@@ -97,10 +108,8 @@ touch_node::iterator_base& touch_child_list::iterator::operator++()
       ci = (*i).second->begin();
     } else {
       ++i;
-      if(i != last) {
-	count = 0;
-	ci = (*i).second->begin();
-      }
+      count = 0;
+      start();
     }
   }
   return *this;
-- 
2.43.0


From d2668cdb3fa4b90758bf27eb3e5be78a3f5881f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 037/183] fix: touch searches reported some rotations of
 touches twice and missed others

---
 ringing/basic_search.cpp | 14 ++++++--------
 ringing/table_search.cpp | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..fc1398e 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -133,7 +133,7 @@ private:
   void output_touches( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
-    size_t parts( len % cur ? cur : len / cur );
+    size_t parts( len / cur );
     list< touch_child_list::entry > &ch = tl->children();
 
     ch.clear();
@@ -173,13 +173,11 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  // As cur is the length of the shortest block which, repeated, starts with 
+  // the touch, it's canonical if it's a whole number of those blocks.
+  bool is_really_canonical( size_t cur )
   {
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    return cur == 0 || calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -193,7 +191,7 @@ private:
     if ( is_row_false( r ) )
       {
 	// Has it come round, and is it in it's canonical form?
-	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical() )
+	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical( cur ) )
 	  output_touches( output, cur );
 
       }
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 961247b..c509b6a 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -268,7 +268,7 @@ private:
 
     // Try all of it's distinguishable rotations.
     if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
-      size_t parts( len % cur ? cur : len / cur );
+      size_t parts( len / cur );
       for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
         force_halt = output( t );
@@ -300,17 +300,15 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  // As cur is the length of the shortest block which, repeated, starts with 
+  // the touch, it's canonical if it's a whole number of those blocks.
+  bool is_really_canonical( size_t cur )
   {
     // Multipart comps are always canonical (because we don't prue rotations
     // from multi-part searches)
     if ( table.partends().size() > 1 ) return true;
 
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    return cur == 0 || calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -334,7 +332,7 @@ private:
 	// Has it come round, and is it in it's canonical form?
 	if ( depth >= lenrange.first 
              && ( (f & non_round_blocks) || r.isrounds() ) 
-             && is_really_canonical() )
+             && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From 2ad3b530bf99eef3284250c97f10bdee6c47311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 038/183] fix: basic_search ignored falseness when the treble
 was not fixed

---
 ringing/basic_search.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index fc1398e..a9087f8 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -74,11 +74,24 @@ public:
     t.push_back( tl = new touch_child_list );    
     t.set_head( tl );
 
-    init_falseness( s->meth );
+    init_falseness( s->meth, is_fixed_treble( s ) 
+                               ? 0 : falseness_table::no_fixed_treble );
   }
 
 private:
-  void init_falseness( const method &meth )
+  static bool is_fixed_treble( const basic_search *s )
+  {
+    if ( s->meth.lh()[0] || !s->meth.back().findplace(0) )
+      return false;
+
+    for ( size_t i=0; i < s->calls.size(); ++i )
+      if ( !s->calls[i].findplace(0) )
+	return false;
+
+    return true;
+  }
+
+  void init_falseness( const method &meth, int ft_flags )
   {
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
 	  i != call_lhs.end(); ++i )
@@ -87,13 +100,14 @@ private:
 	  {
 	    // At least one odd parity call, so we must consider 
 	    // out-of-course falsenesses
-	    falsenesses = falseness_table( meth );
+	    falsenesses = falseness_table( meth, ft_flags );
 	    return;
 	  }
       }
 
     // All calls have even parity so we can exclude out-of-course falsenesses
-    falsenesses = falseness_table( meth, falseness_table::in_course_only );
+    falsenesses = falseness_table
+      ( meth, ft_flags | falseness_table::in_course_only );
   }
 
   void init_call( const row &le, const change &ch )
-- 
2.43.0


From 815edea0a3281bb979e892f5cc86a05dde1d6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 039/183] fix: multi-part table searches missed leads false
 against themselves in another part

---
 ringing/table_search.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index c509b6a..4accc53 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -242,6 +242,15 @@ private:
       if ( leads[ (r * *i).index() ] )
 	return true;
 
+    // A lead can be false against the same lead in another part: this is
+    // so if a FLH (other than rounds, which are first) takes it to itself.
+    // (For the first lead, this was checked in init_falseness.)
+    if ( table.partends().size() > 1 && !r.isrounds() )
+      for ( vector< post_col_t >::const_iterator i( falsenesses.begin() + 1 ); 
+	    i != falsenesses.end(); ++i )
+        if ( (r * *i).index() == r.index() )
+          return true;
+
     return false;
   }
 
-- 
2.43.0


From a7187f2fa68b79fd097fedd9010c344d8b6d2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 040/183] fix: touch searches reported touches of methods whose
 leads repeat a row

---
 ringing/basic_search.cpp | 15 +++++++++++++--
 ringing/table_search.cpp |  9 +++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index a9087f8..c631b44 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -32,6 +32,7 @@
 #include <ringing/basic_search.h>
 #include <ringing/falseness.h>
 #include <ringing/touch.h>
+#include <ringing/proof.h>
 
 RINGING_START_NAMESPACE
 
@@ -57,7 +58,7 @@ class basic_search::context : public search_base::context_base
 {
 public:
   context( const basic_search *s ) 
-    : lenrange( s->lenrange ),
+    : lenrange( s->lenrange ), impossible( false ),
       ignore_rotations( s->ignore_rotations )
   {
     row le; 
@@ -76,6 +77,14 @@ public:
 
     init_falseness( s->meth, is_fixed_treble( s ) 
                                ? 0 : falseness_table::no_fixed_treble );
+
+    // If the lead repeats a row then there are no true touches, but that
+    // doesn't show up in the falseness table, which includes rounds anyway.
+    {
+      row_block const rb( s->meth, row_block::no_final_lead_head );
+      proof< row_block::const_iterator > const p( rb.begin(), rb.end(), true );
+      if ( !p ) impossible = true;
+    }
   }
 
 private:
@@ -130,7 +139,8 @@ private:
   {
     force_halt = false;
     leads.clear();
-    run_recursive( output, row( call_lhs.front().bells() ), 0, 0 );
+    if ( !impossible )
+      run_recursive( output, row( call_lhs.front().bells() ), 0, 0 );
   }
 
   bool is_row_false( const row &r )
@@ -229,6 +239,7 @@ private:
   // Data members
   pair< size_t, size_t > lenrange;	// The min & max lengths (in leads)
   bool force_halt;			// Are we terminating the search?
+  bool impossible;			// Is the lead itself false?
   vector< size_t > calls;		// The calls we've had so far
   touch t;				// The current touch
   touch_child_list *tl;
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 4accc53..e08c074 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -36,6 +36,7 @@
 #include <ringing/multtab.h>
 #include <ringing/extent.h>
 #include <ringing/touch.h>
+#include <ringing/proof.h>
 #include <ringing/group.h>
 
 #define DEBUG_LEVEL 0
@@ -134,6 +135,14 @@ public:
            | (!is_in_course(s)   ? 0 : falseness_table::in_course_only ) );
 
     DEBUG( "Initialised " << falsenesses.size() << " flhs" );
+
+    // If the lead repeats a row then there are no true touches, but that
+    // doesn't show up in the falseness table, which includes rounds anyway.
+    {
+      row_block const rb( s->meth, row_block::no_final_lead_head );
+      proof< row_block::const_iterator > const p( rb.begin(), rb.end(), true );
+      if ( !p ) impossible = true;
+    }
   }
 
 private:
-- 
2.43.0


From b40896283b31086f3742c81c2de567b64f740d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 041/183] fix: searches for non-round blocks reported false
 rotations and missed blocks

---
 ringing/table_search.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index e08c074..9b96a41 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -285,7 +285,9 @@ private:
     force_halt = output( t );
 
     // Try all of it's distinguishable rotations.
-    if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
+    // (The rotations of non-round blocks are different blocks.)
+    if ( !(f & ignore_rotations) && !(f & non_round_blocks) 
+         && table.partends().size() == 1 ) {
       size_t parts( len / cur );
       for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
@@ -304,8 +306,8 @@ private:
     if ( calls.empty() )
       return true;
 
-    // Multipart comps are always canonical 
-    if ( table.partends().size() > 1 ) return true;
+    // Multipart comps are always canonical, and so are non-round blocks
+    if ( table.partends().size() > 1 || (f & non_round_blocks) ) return true;
 
     if ( cur == 0 || calls.back() > calls[ calls.size() - 1 - cur ] )
       cur = calls.size();
@@ -323,8 +325,8 @@ private:
   bool is_really_canonical( size_t cur )
   {
     // Multipart comps are always canonical (because we don't prue rotations
-    // from multi-part searches)
-    if ( table.partends().size() > 1 ) return true;
+    // from multi-part searches), and so are non-round blocks
+    if ( table.partends().size() > 1 || (f & non_round_blocks) ) return true;
 
     return cur == 0 || calls.size() % cur == 0;
   }
-- 
2.43.0


From fe2c8da606b2c940214cea2145dbc7069c7b65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 042/183] fix: a table_search constructed without lengths or
 part ends found nothing

---
 ringing/table_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 9b96a41..1d39c51 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -91,6 +91,7 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
-- 
2.43.0


From f1b768fd1f84c0178b8cafcdea44b782b1f5bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 043/183] fix: multi-part table searches ignored falseness
 between parts of opposite parity

---
 ringing/table_search.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 1d39c51..32a0e09 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -164,6 +164,13 @@ private:
         return false;
       }
 
+    for ( group::const_iterator i( s->partends.begin() ), 
+            e( s->partends.end() ); i != e; ++i )
+      if ( i->sign() == -1 ) {
+        DEBUG( "There is an out-of-course part-end" );
+        return false;
+      }
+
     DEBUG( "All lead heads are in-course" );
     return true;
   }
-- 
2.43.0


From c477808ba11f137a9a4decb76432535b05fd62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 044/183] fix: xmllib returned the first handbell peal as the
 wrong type of facet

---
 ringing/xmllib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 383033d..c454383 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -354,7 +354,10 @@ xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
 
   if (elt.size()) {
     if ( next_sibling_element( meth.get_first_child(), elt ) ) 
-      result.reset( new first_tower_peal( get_peal(elt) ) );
+      if ( id == first_tower_peal::id )
+        result.reset( new first_tower_peal( get_peal(elt) ) );
+      else
+        result.reset( new first_hand_peal( get_peal(elt) ) );
   }
 
   return result;
-- 
2.43.0


From 117d1619ef6b9330de08f884e6e3cf4911d28567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 045/183] fix: xmllib looked for the location of a peal in the
 method, not in the peal

---
 ringing/xmllib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index c454383..f7952ac 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -158,7 +158,7 @@ peal xmllib::impl::entry_type::get_peal( const string& name ) const
 
   string loc;
 
-  dom_element l = next_sibling_element( meth.get_first_child(), "location" );
+  dom_element l = next_sibling_element( e.get_first_child(), "location" );
   if ( l ) {
     // TODO: The peal object should know about the different 
     // parts of a location
-- 
2.43.0


From 8af6a55fb123b19e72b13f928a2ec2351316be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 046/183] fix: mslib ignored the number of bells in the file
 name

---
 ringing/mslib.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ringing/mslib.cpp b/ringing/mslib.cpp
index d332c53..e18a1ca 100644
--- a/ringing/mslib.cpp
+++ b/ringing/mslib.cpp
@@ -97,7 +97,7 @@ class mslib::impl::entry_type : public library_entry::impl
 
   // Helper functions
   friend class mslib::impl;
-  entry_type();
+  explicit entry_type(int b);
   virtual ~entry_type() { };
   virtual bool readentry( library_base &lb );
   virtual library_entry::impl *clone() const { return new entry_type(*this); }
@@ -116,11 +116,11 @@ library::const_iterator mslib::impl::begin() const
   ifs->clear();
   ifs->seekg(0, ios::beg);
   return const_iterator( const_cast< mslib::impl * >(this), 
-			 new mslib::impl::entry_type );
+			 new mslib::impl::entry_type(b) );
 }
 
-mslib::impl::entry_type::entry_type()
-  : b(0)
+mslib::impl::entry_type::entry_type(int b)
+  : b(b)
 {}
 
 bool mslib::impl::entry_type::readentry( library_base &lb )
-- 
2.43.0


From 211a68af4b33fdda0b5a7bad2f4dda5831737e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 047/183] fix: litelib stripped classes and stages that were
 not the last words of the name

---
 ringing/litelib.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..8115b38 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -135,14 +135,17 @@ string litelib::impl::entry_type::name() const
 static void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
 static bool remove_suffix( string& n, string const& suffix )
 {
-  string::size_type i = n.find(suffix);
-  if ( i != string::npos && i == n.length() - suffix.length() ) {
+  if ( suffix.empty() || n.length() < suffix.length() ) return false;
+  string::size_type i = n.length() - suffix.length();
+  // The suffix must be a whole number of words
+  if ( n.compare( i, string::npos, suffix ) == 0
+       && ( i == 0 || isspace(n[i-1]) ) ) {
     n.erase(i); trim_trailing_whitespace(n);
     return true;
   }
-- 
2.43.0


From 6d567062383ab0bf119f511243babd558cafbfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 048/183] fix: litelib left 'Treble' in the names of treble bob
 and treble place methods

---
 ringing/litelib.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8115b38..12a1e69 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -157,9 +157,10 @@ string litelib::impl::entry_type::base_name() const
   string n = name();
   if ( remove_suffix( n, method::stagename(b) ) ) {
     bool had_class = false;
-    for ( method::m_class c = method::M_BOB; 
-            c <= method::M_SLOW_COURSE && !had_class;  
-            c = (method::m_class)( (int)c + 1 ) )
+    // In this order because 'Treble Bob' ends in 'Bob', etc.
+    for ( method::m_class c = method::M_SLOW_COURSE;
+            c >= method::M_BOB && !had_class;
+            c = (method::m_class)( (int)c - 1 ) )
       if ( remove_suffix( n, method::classname(c) ) )
         had_class = true;
    
-- 
2.43.0


From 4ed4d5d0edf8cd7f8e7421dff8c23b5bd23eac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 049/183] fix: cclib treated every table after one of plain
 methods as plain

---
 ringing/cclib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 3c1ed92..8ad4ea3 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -252,6 +252,7 @@ void cclib::impl::entry_type::parse_title()
     || ( linebuf.find( "Differential ") != string::npos );
   little = ( linebuf.find( "Little " ) != string::npos );
   block = linebuf.find( "blocks" ) != string::npos;
+  plain = false;
 
   if ( linebuf.find( "Treble Place " ) != string::npos )
     main_class = method::M_TREBLE_PLACE;
-- 
2.43.0


From 9df633ecff283e83b8bf183655f5d9075b4bc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 050/183] fix: cclib left the class in the base name, so that
 full names had it twice

---
 ringing/cclib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 8ad4ea3..c9c827d 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -499,6 +499,10 @@ string cclib::impl::entry_type::base_name() const
   if(block)
     maybe_strip_class( newname, "Block" );
 
+  // name() adds the main class
+  if(main_class)
+    maybe_strip_class( newname, method::classname(main_class) );
+
   if(plain)
     maybe_strip_class( newname, method::classname( method::M_BOB ) ) ||
       maybe_strip_class( newname, method::classname( method::M_PLACE ) ) ||
-- 
2.43.0


From 80a668063e11679b4c98a130eb63da4b0b0222e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 051/183] fix: cclib denied having first handbell peals unless
 there was a column after that of tower bell peals

---
 ringing/cclib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index c9c827d..23d5dac 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -414,7 +414,7 @@ bool cclib::impl::entry_type::has_facet( const library_facet_id& id ) const
     return tower_date != string::npos && bool( get_facet( id ) );
   
   else if ( id == first_hand_peal::id ) 
-    return tower_end != string::npos && bool( get_facet( id ) );
+    return hand_date != string::npos && bool( get_facet( id ) );
 
   else if ( id == rw_ref::id ) 
     return rw_start != string::npos && bool( get_facet( id ) );
-- 
2.43.0


From f65de1606b0f13046cd424c542447510990bf90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 052/183] fix: litelib left 'Little' in the names of little
 hybrid methods

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 12a1e69..91119dc 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -164,7 +164,7 @@ string litelib::impl::entry_type::base_name() const
       if ( remove_suffix( n, method::classname(c) ) )
         had_class = true;
    
-    if (had_class) remove_suffix( n, method::classname( method::M_LITTLE ) );
+    remove_suffix( n, method::classname( method::M_LITTLE ) );
     remove_suffix( n, method::classname( method::M_DIFFERENTIAL ) );
   }
   return n;
-- 
2.43.0


From 73ed6af70c4484bef283e47a1f6c5c63aa5c0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 053/183] fix: mslib missed the number of bells in the file
 name if a directory's name had a dot

---
 ringing/mslib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/mslib.cpp b/ringing/mslib.cpp
index e18a1ca..2af3537 100644
--- a/ringing/mslib.cpp
+++ b/ringing/mslib.cpp
@@ -230,7 +230,10 @@ static int extractNumber(const string &filename)
   // Is there a '.'? e.g. '.txt', if so account for it
   // We want the last one so that a filename like
   // ../libraries/surprise8.txt works.
-  string subname(filename, 0, filename.find_last_of('.'));
+  string::size_type dot = filename.find_last_of('.');
+  if (dot != string::npos && filename.find_first_of("/\\", dot) != string::npos)
+    dot = string::npos;  // That dot is in the name of a directory
+  string subname(filename, 0, dot);
 
   // now start to reverse from last.
   for(s = subname.end(); s > subname.begin() && isdigit(s[-1]); s--);
-- 
2.43.0


From cdc9567bce71511d23b8eb6dbcf6f921a560f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 054/183] fix: litelib read blank lines with DOS line ends as
 methods

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 91119dc..5db0638 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -187,7 +187,7 @@ bool litelib::impl::entry_type::readentry( library_base &lb )
     getline( ifs, linebuf );
 
     if (ifs) {
-      linestart = linebuf.find_first_not_of(" \t");
+      linestart = linebuf.find_first_not_of(" \t\r");
       if (linestart != string::npos) {
         int line_bells = read_bells();
         if (req_bells == 0 && line_bells) {
-- 
2.43.0


From ff07806a65d2f200ae3ced405f7efc27807f6a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 055/183] fix: litelib failed on files starting with a byte
 order mark

---
 ringing/litelib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 5db0638..b982871 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -219,6 +219,7 @@ library_base::const_iterator litelib::impl::begin() const
   if (f_owner) {
     f_owner->clear();
     f_owner->seekg(0, ios::beg);
+    const_cast< litelib::impl * >(this)->skip_bom();
   }
   return const_iterator(const_cast< litelib::impl * >(this),
                         new entry_type(b, flags));
-- 
2.43.0


From 9dfbd113e7f892e6ba5843001f6b73e3ac789f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 056/183] fix: xmllib could not read the first peals that
 xmlout writes

---
 ringing/xmllib.cpp | 58 ++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index f7952ac..84f25d5 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -104,8 +104,8 @@ class xmllib::impl::entry_type : public library_entry::impl
     next_sibling_element( dom_element start, const string& name) const;
   string get_field( dom_element const& parent, const string& elt_name ) const;
   string extract_text( const dom_element& e ) const;
-  peal get_peal( const string& elt_name ) const;
-  string facet_elt( const library_facet_id& id ) const;
+  peal get_peal( const dom_element& e ) const;
+  dom_element facet_elt( const library_facet_id& id ) const;
 
   virtual string name() const;
   virtual string base_name() const;
@@ -146,11 +146,8 @@ string xmllib::impl::entry_type::get_field( dom_element const& parent,
     return string();
 }
 
-peal xmllib::impl::entry_type::get_peal( const string& name ) const
+peal xmllib::impl::entry_type::get_peal( const dom_element& e ) const
 {
-  dom_element e = next_sibling_element( meth.get_first_child(), name );
-  if (!e) return peal();
-
   peal::date dt;
   if ( sscanf( get_field( e, "date" ).c_str(), "%d-%d-%d", 
 	       &dt.year, &dt.month, &dt.day ) != 3 )
@@ -203,6 +200,10 @@ peal xmllib::impl::entry_type::get_peal( const string& name ) const
     tmp=get_field( l, "country" );
     if (tmp.size() && loc.size()) loc += ", ";
     if (tmp.size()) loc += tmp;
+
+    // This is how xmlout writes it
+    if ( !l.get_first_child() )
+      loc = extract_text( l );
   }
 
   return peal( dt, loc );
@@ -326,38 +327,45 @@ bool xmllib::impl::entry_type::readentry( library_base& lb )
   }
 }
 
-string xmllib::impl::entry_type::facet_elt( const library_facet_id& id ) const
+dom_element 
+xmllib::impl::entry_type::facet_elt( const library_facet_id& id ) const
 {
-  if ( id == first_tower_peal::id )
-    return cc_xml ? "firstTowerbellPeal" : "first-tower";
+  string elt, group( "performances" ), grouped;
 
-  else if ( id == first_hand_peal::id ) 
-    return cc_xml ? "firstHandbellPeal" : "first-hand";
+  if ( id == first_tower_peal::id ) {
+    elt = cc_xml ? "firstTowerbellPeal" : "first-tower";
+    grouped = cc_xml ? "firstTowerbellPeal" : "firsttower";
+  }
+  else if ( id == first_hand_peal::id ) {
+    elt = cc_xml ? "firstHandbellPeal" : "first-hand";
+    grouped = cc_xml ? "firstHandbellPeal" : "firsthand";
+  }
+  else return dom_element();
 
-  else return string();
+  dom_element e = next_sibling_element( meth.get_first_child(), elt );
+  if (!e) {
+    // This is where xmlout puts them
+    dom_element g = next_sibling_element( meth.get_first_child(), group );
+    if (g) e = next_sibling_element( g.get_first_child(), grouped );
+  }
+  return e;
 }
 
 bool xmllib::impl::entry_type::has_facet( const library_facet_id& id ) const
 {
-  string elt( facet_elt(id) );
-  if (elt.size())
-    return next_sibling_element( meth.get_first_child(), elt );
-  else 
-    return false;
+  return facet_elt(id);
 }
 
 shared_pointer< library_facet_base >
 xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
 {
   shared_pointer< library_facet_base > result;
-  string elt( facet_elt(id) );
-
-  if (elt.size()) {
-    if ( next_sibling_element( meth.get_first_child(), elt ) ) 
-      if ( id == first_tower_peal::id )
-        result.reset( new first_tower_peal( get_peal(elt) ) );
-      else
-        result.reset( new first_hand_peal( get_peal(elt) ) );
+
+  if ( dom_element elt = facet_elt(id) ) {
+    if ( id == first_tower_peal::id )
+      result.reset( new first_tower_peal( get_peal(elt) ) );
+    else
+      result.reset( new first_hand_peal( get_peal(elt) ) );
   }
 
   return result;
-- 
2.43.0


From f37abb8c48a46ff37dcfdb94a4c0134b51d59889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 057/183] fix: xmllib could not read the references that xmlout
 writes

---
 ringing/xmllib.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 84f25d5..73af1bd 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -340,9 +340,15 @@ xmllib::impl::entry_type::facet_elt( const library_facet_id& id ) const
     elt = cc_xml ? "firstHandbellPeal" : "first-hand";
     grouped = cc_xml ? "firstHandbellPeal" : "firsthand";
   }
+  else if ( id == rw_ref::id )
+    group = "refs", grouped = "rwref";
+  else if ( id == cc_collection_id::id )
+    group = "refs", grouped = "ccc";
   else return dom_element();
 
-  dom_element e = next_sibling_element( meth.get_first_child(), elt );
+  dom_element e;
+  if (elt.size())
+    e = next_sibling_element( meth.get_first_child(), elt );
   if (!e) {
     // This is where xmlout puts them
     dom_element g = next_sibling_element( meth.get_first_child(), group );
@@ -364,8 +370,12 @@ xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
   if ( dom_element elt = facet_elt(id) ) {
     if ( id == first_tower_peal::id )
       result.reset( new first_tower_peal( get_peal(elt) ) );
-    else
+    else if ( id == first_hand_peal::id )
       result.reset( new first_hand_peal( get_peal(elt) ) );
+    else if ( id == rw_ref::id )
+      result.reset( new rw_ref( extract_text(elt) ) );
+    else
+      result.reset( new cc_collection_id( extract_text(elt) ) );
   }
 
   return result;
-- 
2.43.0


From bbfbe8c12af78b32a477f33f18de62686144e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 058/183] fix: dimension::write() put a NUL at the end of the
 text

---
 ringing/dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index cc9f2aa..32a7d7d 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -83,7 +83,7 @@ ostream& operator<<(ostream& o, const dimension& d)
 
 string& dimension::write(string& s) const
 {
-  return s = make_string() << *this << ends;
+  return s = make_string() << *this;
 }
 
 
-- 
2.43.0


From 3b7eec6928fd083b32a5eb389b07d8b86ae5cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 059/183] fix: a zero dimension was written in a form that
 could not be read

---
 ringing/dimension.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index 32a7d7d..3c9e3d1 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -70,10 +70,9 @@ void dimension::set_float(float value, int denom, units uu)
 ostream& operator<<(ostream& o, const dimension& d)
 {
   if(d.d == 0) return o;
-  if(d.n == 0) { o << '0'; return o; }
   int r = d.n % d.d;
   int q = (d.n - r) / d.d;
-  if(q != 0) o << q;
+  if(q != 0 || r == 0) o << q;
   if(q != 0 && r != 0) o << ' ';
   if(r < 0) r = -r;
   if(r != 0) o << r << '/' << d.d;
-- 
2.43.0


From e4942979632b67506c470d6d477508fdec1a0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 060/183] fix: negative dimensions between -1 and 0 were
 written without their sign

---
 ringing/dimension.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index 3c9e3d1..239a363 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -74,7 +74,10 @@ ostream& operator<<(ostream& o, const dimension& d)
   int q = (d.n - r) / d.d;
   if(q != 0 || r == 0) o << q;
   if(q != 0 && r != 0) o << ' ';
-  if(r < 0) r = -r;
+  if(r < 0) {
+    r = -r;
+    if(q == 0) o << '-';
+  }
   if(r != 0) o << r << '/' << d.d;
   o << ' ' << dimension::unit_strings[d.u];
   return o;
-- 
2.43.0


From 683d0545a34758b36911b76fb57d595575db1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 061/183] fix: dimensions that overflow or have a zero
 denominator were accepted

---
 ringing/dimension.cpp | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index 239a363..1d408ae 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -28,6 +28,7 @@
 #else
 #include <cctype>
 #endif
+#include <limits>
 #include <ringing/streamutils.h>
 #include <ringing/dimension.h>
 
@@ -89,6 +90,22 @@ string& dimension::write(string& s) const
 }
 
 
+// Read a run of digits, appending them to n, which must not overflow
+static bool read_digits(const char *&s, int &n, int *scale = NULL)
+{
+  const int max = numeric_limits<int>::max();
+  for( ; isdigit(*s); s++) {
+    const int i = *s - '0';
+    if(n > (max - i) / 10) return false;
+    n = 10*n + i;
+    if(scale) {
+      if(*scale > max / 10) return false;
+      *scale *= 10;
+    }
+  }
+  return true;
+}
+
 void dimension::read(const char *s)
 {
   int a, b, c;
@@ -101,25 +118,27 @@ void dimension::read(const char *s)
   // Now a number
   while(isspace(*s)) s++;
   if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
-  a = *s++ - '0';
-  while(isdigit(*s)) a = 10*a + (*s++ - '0');
+  a = 0;
+  if(!read_digits(s, a)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
   if(*s == '.') { // We have a number in decimal format
     s++;
     b = 1;
-    while(isdigit(*s)) { a = 10*a + (*s++ - '0'); b = 10*b; }
+    if(!read_digits(s, a, &b)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
     read_units(s);
     n = negative ? -a : a; d = b;
   } else { // Look for a fractional part
     while(isspace(*s)) s++;
     if(isdigit(*s)) { // Found a fractional part
-      b = *s++ - '0';
-      while(isdigit(*s)) b = 10*b + (*s++ - '0');
+      b = 0;
+      if(!read_digits(s, b)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       while(isspace(*s)) s++;
       if(*s++ != '/') RINGING_THROW_OR_RETURN_VOID( bad_format() );
       while(isspace(*s)) s++;
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
-      c = *s++ - '0';
-      while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      c = 0;
+      if(!read_digits(s, c) || c == 0 ||
+         a > (numeric_limits<int>::max() - b) / c)
+        RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = a * c + b; d = c;
       if(negative) n = -n;
@@ -127,8 +146,9 @@ void dimension::read(const char *s)
       s++;
       while(isspace(*s)) s++;
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
-      c = *s++ - '0';
-      while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      c = 0;
+      if(!read_digits(s, c) || c == 0)
+        RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = negative ? -a : a; d = c;     
     } else { // Just an integer
-- 
2.43.0


From 8043305dca444b83d080007e486bbcbfb24474d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 062/183] fix: printed text lost its unprintable and non-ASCII
 characters

---
 ringing/print_pdf.cpp | 11 +++++++----
 ringing/print_ps.cpp  | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 7d2e50b..b6adae1 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -191,10 +191,13 @@ void pdf_file::output_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
-	  os << *i;
-	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	{
+	  const unsigned char c = *i;
+	  if(isprint(c))
+	    os << *i;
+	  else
+	    os << '\\' << (c >> 6) << ((c >> 3) & 7) << (c & 7);
+	}
 	break;
     }
   }
diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index b095f4d..6d8b225 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -246,10 +246,13 @@ void printpage_ps::write_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
-	  os << *i;
-	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	{
+	  const unsigned char c = *i;
+	  if(isprint(c))
+	    os << *i;
+	  else
+	    os << '\\' << (c >> 6) << ((c >> 3) & 7) << (c & 7);
+	}
 	break;
     }
   }
-- 
2.43.0


From 74c0f7f6836dd9b280cd1da696d8b97b821ee124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 063/183] fix: the first page of landscape PostScript documents
 had no number

---
 ringing/print_ps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 6d8b225..cad068f 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -174,7 +174,7 @@ printpage_ps::printpage_ps(ostream& o, const dimension& page_height)
 {
   pages = 1;
   os << "%!PS-Adobe-3.0\n" << "%%Pages: (atend)\n%%Orientation: Landscape\n"
-     << header_string << def_string << "%%Page: 1\nsave\n";
+     << header_string << def_string << "%%Page: 1 1\nsave\n";
   ph = static_cast<int>(page_height.in_points());
   landscape_mode();
 }
-- 
2.43.0


From 5cc3b6661dddc07ed0f34bd794883d14774584b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 064/183] fix: PostScript documents without text had no line
 for their end

---
 ringing/print_ps.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index cad068f..89d87f2 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -199,9 +199,8 @@ printpage_ps::~printpage_ps()
     os << " font ";
     copy(used_fonts.begin(), used_fonts.end(), 
 	 ostream_iterator<string>(os, " "));
-    os << '\n';
   } 
-  os << "%%EOF\n";
+  os << "\n%%EOF\n";
 }
 
 void printpage_ps::new_page()
-- 
2.43.0


From 132692496799161bccfc51db0ef525173f379077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 065/183] fix: text put on a PDF page after rows was spaced out
 like the rows

---
 ringing/print_pdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index b6adae1..7eb134b 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -286,7 +286,7 @@ void printpage_pdf::text(const string t, const dimension& x,
   f << "q "; set_colour(s.col, true);
   f << "BT\n/"
     << f.get_font(cw.font()) << ' ' << (s.size / 10.0) << " Tf\n"
-    << x1 << ' ' << y.in_points() << " Td\n";
+    << "0 Tc " << x1 << ' ' << y.in_points() << " Td\n";
   f.output_string(t);
   f << " Tj\n"
     << "ET Q\n";
-- 
2.43.0


From cd32ad91281ccda0eb4ed520ccf55ee2eba3ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 066/183] fix: psline wrote broken EPS files when the method
 took several pages

---
 apps/psline/psline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 9759b55..26c9090 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -826,6 +826,9 @@ int main(int argc, char *argv[])
       pm.opt.grid_style = args.grid_style;
     }
 
+    // An EPS file only has one page
+    if(args.format == eps) pm.sets_per_page = 0;
+
     // Get the bounding box of the image
     float blx, bly, urx, ury;
     pm.get_bbox(blx, bly, urx, ury);
-- 
2.43.0


From 5bd01128ef3d5eb44ef7797d871f6ea56f81c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 067/183] fix: rowcalc lost rows when a nested set or a power
 of sets was multiplied by a set

---
 apps/utils/row_calc.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 19dc0f6..ee5922e 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -288,7 +288,7 @@ public:
   {}
 
 private:
-  virtual void restart() { lhs.restart(); }
+  virtual void restart() { lhs.restart(); rhs.restart(); }
   virtual int count_vectors() const 
     { return lhs.count_vectors() + rhs.count_vectors(); }
   virtual bool reads_stdin() const 
@@ -345,7 +345,13 @@ public:
   set_node( list<row_calc::expr> const& l ) : l(l), started(false) {}
 
 private:
-  virtual void restart() { started = false; }
+  virtual void restart()
+  {
+    started = false;
+    for ( list<row_calc::expr>::iterator it=l.begin(); it!=l.end(); ++it )
+      it->restart();
+  }
+
   virtual int count_vectors() const
   {
     int v = 1;
-- 
2.43.0


From f7776a2d720ef7fbecaa1185f5206617b426c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 068/183] fix: rowcalc ended a set at an element which was an
 empty difference

---
 apps/utils/row_calc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index ee5922e..d609081 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -389,7 +389,9 @@ private:
           ++i;
         }
       else 
-        return i++->evaluate();
+        try {
+          return i++->evaluate();
+        } catch (vector_end) {}
     }
 
     throw vector_end();
-- 
2.43.0


From 938fadd1e13ca81915ed7e171857b98eebdad6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 069/183] fix: rowcalc could not read a file of rows without a
 newline at the end

---
 apps/utils/row_calc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index d609081..9412bbe 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -486,7 +486,7 @@ public:
 
 private:
   virtual int count_vectors() const { return 1; }
-  virtual bool reads_stdin() const { return !in_owner; }
+  virtual bool reads_stdin() const { return file == "-"; }
 
   virtual void restart() { 
     if (reads_stdin()) 
@@ -519,11 +519,11 @@ private:
     }
 
     char const seps[] = " ,;:\t\r\n";
-    while ( *in && strchr( seps, in->peek() ) ) in->get();
-    if ( !*in || in->peek() == EOF ) throw vector_end();
+    while ( in->peek() != EOF && strchr( seps, in->peek() ) ) in->get();
+    if ( in->peek() == EOF ) throw vector_end();
 
     string r;
-    while ( *in && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
+    while ( in->peek() != EOF && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
     return row(r);
   }
 
-- 
2.43.0


From 1affe9f09d2e73bf317796860887422fffeace01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 070/183] fix: rowcalc did not accept negative powers

---
 apps/utils/row_calc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 9412bbe..21feb0c 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -629,6 +629,8 @@ bool rc_parser::find_last( iter_t const first, iter_t last,
                            tok_types::enum_t (&tt_list)[N],
                            iter_t &result ) const
 {
+  // A minus immediately following a power operator is the sign of the
+  // exponent, not a binary operator.
   int depth( 0 );
   for ( ; first != last; --last ) {
     iter_t i = last; --i;
@@ -640,7 +642,8 @@ bool rc_parser::find_last( iter_t const first, iter_t last,
               i->type() == tok_types::close_set   ||
               i->type() == tok_types::close_group )
       --depth;
-    else if ( !depth )
+    else if ( !depth &&
+              !( i != first && (i-1)->type() == tok_types::power ) )
       for ( size_t j = 0u; j<N; ++j )
         if ( i->type() == tt_list[j] ) {
           result = i;
-- 
2.43.0


From 8d363c1962063df18e5dfa634a36753b3c2e3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 071/183] fix: rowcalc aborted when it could not read its input

---
 apps/rowcalc/rowcalc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/rowcalc/rowcalc.cpp b/apps/rowcalc/rowcalc.cpp
index 95c5cef..8ba0eed 100644
--- a/apps/rowcalc/rowcalc.cpp
+++ b/apps/rowcalc/rowcalc.cpp
@@ -146,6 +146,10 @@ bool evaluate_expr( arguments const& args, string const& expr )
     cerr << "Invalid row produced: " << ex.what() << "\n";
     return false;
   }
+  catch ( exception const& ex ) {
+    cerr << "Error evaluating expression: " << ex.what() << "\n";
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From e9a617e65e93be1a7681e0b24ec207d48f113872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 072/183] fix: trimming an empty string read before its start

---
 apps/utils/stringutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/stringutils.cpp b/apps/utils/stringutils.cpp
index 549fb1c..5857e33 100644
--- a/apps/utils/stringutils.cpp
+++ b/apps/utils/stringutils.cpp
@@ -59,7 +59,7 @@ void trim_leading_whitespace( string &line )
 void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
-- 
2.43.0


From 84bd07a280deb321c703213867697c826b02579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 073/183] fix: rowcalc printed nothing when an empty difference
 was subtracted

---
 apps/utils/row_calc.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 21feb0c..0c9a06c 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -222,14 +222,12 @@ private:
   virtual row evaluate() {
     if (!started) {
       exclude.clear();
-      if (rhs.count_vectors()) 
-        try {
-          while (true) 
-            exclude.insert( rhs.evaluate() ); 
-        } 
-        catch (vector_end) {}
-      else
-        exclude.insert( rhs.evaluate() );
+      try {
+        do 
+          exclude.insert( rhs.evaluate() ); 
+        while (rhs.count_vectors());
+      } 
+      catch (vector_end) {}
       started = true;
     }
 
-- 
2.43.0


From eaaf9f2d462598de96e6143ed935260d344e472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 074/183] fix: musgrep -H failed when the type of terminal was
 not known

---
 apps/musgrep/musgrep.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/musgrep/musgrep.cpp b/apps/musgrep/musgrep.cpp
index 1ceabf3..ef5035d 100644
--- a/apps/musgrep/musgrep.cpp
+++ b/apps/musgrep/musgrep.cpp
@@ -197,8 +197,10 @@ int main( int argc, char *argv[] )
   }
 
 # if RINGING_USE_TERMCAP
+  // Passing a pointer for the error stops it exiting if the terminal is unknown.
+  int termerr;
   if ( args.hilight )
-    setupterm(NULL, 1, NULL);
+    setupterm(NULL, 1, &termerr);
 # endif
 
   char const* seq1 = RINGING_TERMINFO_VAR( enter_standout_mode );
-- 
2.43.0


From 69ad70d36b38b30edd6390f264eb5aa8b0477cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 075/183] fix: printmethod failed to colour bells when the type
 of terminal was not known

---
 apps/printmethod/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index a3ba3f1..2690b60 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -211,8 +211,10 @@ int main(int argc, char* argv[])
   }
 
 # if RINGING_USE_TERMCAP
+  // Passing a pointer for the error stops it exiting if the terminal is unknown.
+  int termerr;
   if ( !args.bellfmt.empty() )
-    setupterm(NULL, 1, NULL);
+    setupterm(NULL, 1, &termerr);
 # endif
 
   row r( args.startrow );  bool first = true;
-- 
2.43.0


From caa071751280fcb7d0529f3faecef4c2093c79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 076/183] fix: gsiril exited without proving when the type of
 terminal was not known

---
 apps/gsiril/proof_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index f910877..3c4dd94 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -58,9 +58,12 @@ proof_context::proof_context( const execution_context &ectx )
 # if RINGING_USE_TERMCAP
   static bool terminfo_initialized = false;
   if ( !terminfo_initialized ) {
+    // Passing a pointer for the error stops it exiting if the terminal
+    // is unknown.
+    int err;
     char const *term = getenv("TERM");
     if ( term && strlen(term) )
-      setupterm(NULL, 1, NULL); 
+      setupterm(NULL, 1, &err); 
     terminfo_initialized = true;
   }
 # endif
-- 
2.43.0


From 39e27f910fd9284cff553bc2e568856add676fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 077/183] fix: printmethod aborted when given a bad number of
 bells

---
 apps/printmethod/main.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index 2690b60..0598c95 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -135,7 +135,15 @@ bool arguments::validate( arg_parser &ap )
 {
   size_t i = methstr.find(':');
   if ( i != string::npos ) {
-    unsigned b = lexical_cast<unsigned>( methstr.substr(0,i) );
+    int b;
+    try {
+      b = lexical_cast<int>( methstr.substr(0,i) );
+    }
+    catch ( bad_lexical_cast const& ) {
+      ap.error( make_string() << "'" << methstr.substr(0,i)
+                << "' is not a number of bells" );
+      return false;
+    }
     if (bells && b != bells) {
       ap.error("Mismatch between number of bells specified");
       return false;
@@ -149,6 +157,12 @@ bool arguments::validate( arg_parser &ap )
     return false;
   }
 
+  if ( bells < 0 || bells > int(bell::MAX_BELLS) ) {
+    ap.error( make_string() << "The number of bells must be between 1 and "
+              << bell::MAX_BELLS );
+    return false;
+  }
+
   try {
     meth = method( methstr, bells );
   } 
-- 
2.43.0


From 02f2f655a94931ea77f009363cdcad0e98028e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 078/183] fix: extent did not limit the number of bells

---
 apps/extent/extent.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/extent/extent.cpp b/apps/extent/extent.cpp
index 6307644..2a73d24 100644
--- a/apps/extent/extent.cpp
+++ b/apps/extent/extent.cpp
@@ -87,7 +87,14 @@ bool arguments::validate( arg_parser& ap )
       return false;
     }
 
-  if ( bells < hunts + tenors ) 
+  if ( bells > int(bell::MAX_BELLS) )
+    {
+      ap.error( make_string() << "The number of bells must be at most "
+                << bell::MAX_BELLS );
+      return false;
+    }
+
+  if ( bells < hunts || bells - hunts < tenors ) 
     {
       ap.error( "More hunt bells and fixed tenors than the "
                 "total number of bells" );
-- 
2.43.0


From 029e6d65d745116e7ec7ebd18b8f73b5edecae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 079/183] fix: methodlib -a read past the payloads when titles
 were given with -t

---
 apps/methodlib/methodlib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methodlib/methodlib.cpp b/apps/methodlib/methodlib.cpp
index 0a080d4..72858e1 100644
--- a/apps/methodlib/methodlib.cpp
+++ b/apps/methodlib/methodlib.cpp
@@ -163,6 +163,8 @@ bool arguments::validate( arg_parser& ap )
 
   if ( suffixstr.size() && titles.size() )
     payloads = titles;
+  else // Titles given with -t have no payload to copy
+    payloads.resize( titles.size() );
 
   return true;
 }
-- 
2.43.0


From 649373ad3ff5b1b1ed288d5e16c6bb18b99b639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 080/183] fix: touchsearch -g put a comma before the first lead

---
 apps/touchsearch/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 00392d3..33a9279 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -85,7 +85,7 @@ public:
       = dynamic_cast<touch_child_list const*>( t.get_head() );
     assert( tl );
      
-    size_t len = 0;   row r(args.bells);
+    size_t len = 0;   row r(args.bells);   bool first = true;
     do for ( list<touch_child_list::entry>::const_iterator
                i = tl->children().begin(), e = tl->children().end();  
                i != e;  ++i ) 
@@ -100,7 +100,8 @@ public:
         size_t cn = find( args.calls.begin(), args.calls.end(), c ) 
             - args.calls.begin();
 
-        if ( (flags & comma_separate) && len != 0 ) cout << ',';
+        if ( (flags & comma_separate) && !first ) cout << ',';
+        first = false;
         if ( cn < args.calls.size() ) cout << args.call_strs[cn];
         else cout << args.plain_name;
       }
-- 
2.43.0


From 6ec4a728c5974d0cad8836c3f7515df8db263b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 081/183] fix: touchsearch -a found touches longer than the
 maximum length

---
 apps/touchsearch/join_plan_search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 7d97638..6b09bac 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -205,7 +205,8 @@ private:
     if ( leads[lh.index()] || leads[le.index()] ) 
       {
         // Has it come round, and is it in it's canonical form?
-        if ( depth >= lenrange.first && lh.isrounds() )
+        if ( depth >= lenrange.first && depth <= lenrange.second
+             && lh.isrounds() )
           output_touch( output );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From b0cfedd889ef7c5e5f1fa384611e493db2c241ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 082/183] fix: touchsearch -a mishandled plans whose lead heads
 or lead ends were not in the table

---
 apps/touchsearch/join_plan_search.cpp | 44 ++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 6b09bac..e9507e0 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -76,7 +76,7 @@ public:
   {
     DEBUG( "Constructing context: table size " << table.size() );
 
-    init_touch_meths( s->plan );
+    init_touch_meths( s );
 
     for ( size_t i=0; i < s->calls.size(); ++i )
       init_call( s->calls[i] );
@@ -113,29 +113,63 @@ private:
         return false;
       }
 
-    DEBUG( "Lead heads are all in-course" );
+    if ( psign == -1 ) {
+      DEBUG( "The lead ends are out-of-course" );
+      return false;
+    }
+
+    DEBUG( "Lead heads and lead ends are all in-course" );
+    return true;
+  }
+
+  static bool is_fixed_treble( const join_plan_search *s )
+  {
+    for ( map<row,method>::const_iterator i=s->plan.begin(), e=s->plan.end();
+            i != e; ++i )
+      if ( i->second.lh()[0] || !i->second.back().findplace(0) )
+        return false;
+
+    for ( size_t i=0; i < s->calls.size(); ++i )
+      if ( !s->calls[i].findplace(0) )
+        return false;
+
     return true;
   }
 
+  // The table has to contain all of the lead heads and lead ends reachable 
+  // from rounds.
   static multtab make_table( const join_plan_search *s )
   {
+    unsigned const nh( is_fixed_treble(s) ? 1 : 0 ), nw( s->bells - nh );
+
     if ( is_in_course(s) ) {
-      return multtab( incourse_extent_iterator( s->bells - 1, 1),
+      return multtab( incourse_extent_iterator( nw, nh ),
                       incourse_extent_iterator() );
     }
     else {
-      return multtab( extent_iterator( s->bells - 1, 1 ),
+      return multtab( extent_iterator( nw, nh ),
                       extent_iterator() );
     }
   }
 
-  void init_touch_meths( map<row,method> const& p )
+  // Whether a row is in the table.  If it isn't, it cannot be reached.
+  static bool is_in_table( const join_plan_search *s, row const& r )
   {
+    return !( is_fixed_treble(s) && r[0] )
+        && !( is_in_course(s) && r.sign() == -1 );
+  }
+
+  void init_touch_meths( const join_plan_search *s )
+  {
+    map<row, method> const& p( s->plan );
     map<method, int> meths;
     vector<int>( table.size(), -1 ).swap( plan );
 
     for ( map<row,method>::const_iterator i=p.begin(), e=p.end(); i != e; ++i )
     { 
+      if ( !is_in_table( s, i->first ) )
+        continue;
+
       method m( i->second );  m.pop_back();
       if ( meths.find(m) == meths.end() ) {
         meths[m] = les.size();
-- 
2.43.0


From 7eae30dcf9b28a5875f6ec7f9252c4a2610bda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 083/183] fix: table searches aborted when a part end moved an
 otherwise fixed treble

---
 ringing/table_search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 32a0e09..0fda22b 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -184,6 +184,11 @@ private:
       if ( !s->calls[i].findplace(0) )
 	return false;
 
+    for ( group::const_iterator i( s->partends.begin() ), 
+            e( s->partends.end() ); i != e; ++i )
+      if ( i->bells() && (*i)[0] )
+        return false;
+
     return true;
   }
 
-- 
2.43.0


From dc3a6927a140f58745e4483ed06d902297a34fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 084/183] fix: multtab aborted when the part ends did not
 preserve the rows or when a row was not found

---
 ringing/multtab.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ringing/multtab.cpp b/ringing/multtab.cpp
index ce153dc..7df98bc 100644
--- a/ringing/multtab.cpp
+++ b/ringing/multtab.cpp
@@ -120,8 +120,11 @@ void multtab::init( const vector< row >& r )
         i != e; ++i ) 
     rows2.insert( make_representative(*i) );
 
-  // TODO:  Better error checking for this:
-  assert( rows2.size() == r.size() / pends.size() );
+  // (This also checks that no two rows given are equivalent.)
+  if ( rows2.size() * pends.size() != r.size() )
+    throw logic_error
+      ( "Attempted to create a multiplication table of rows which is not "
+        "invariant under the part ends" );
 
   // Force the capacity to be reduced.  
   // (Calling clear doesn't necessarily do this.)
@@ -229,8 +232,8 @@ multtab::find( const row &r ) const
     if ( rows[i.n] == r2 ) 
       return i;
 
-  assert( false );
-  return row_t();
+  throw logic_error( "Attempted to find a row which is not in the "
+                     "multiplication table" );
 }
 
 row multtab::find( const multtab::row_t &r ) const
-- 
2.43.0


From 1e08a79695d3712d8d1ec7be3c606c3451464473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 085/183] fix: fextent -c failed for any method with false
 course heads

---
 apps/fextent/fextent.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 428a4a8..50552fa 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -653,9 +653,16 @@ void state::init_mt( method const& m, group const& pgrp,
 {
   status_out( "Generating multiplication table ..." );
 
+  // If a part end moves the tenor, the course heads need transposing back.
+  // (Otherwise everything we handle has the tenor at home already.)
   group postgroup;
   if ( flags & whole_courses )
-    postgroup = group( m.lh() );
+    for ( group::const_iterator i( pgrp.begin() ), e( pgrp.end() ); 
+          i != e; ++i )
+      if ( (*i)[bells-1] != bells-1 ) {
+        postgroup = group( m.lh() );
+        break;
+      }
 
   if ( flags & in_course_only )
     mt.reset( new multtab( incourse_extent_iterator(nw, nh, bells),
-- 
2.43.0


From 9564610fdbc5839cb0fa9548006a81ca4bafafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 086/183] fix: fextent -r required the wrong leads or never
 ended

---
 apps/fextent/fextent.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 50552fa..b4a0068 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -762,10 +762,13 @@ void state::init_req( const method& m, vector<row> const& required_rows )
 
       row_t r;
       {
-	row const lh( m.lh() );
 	row r2(*i);
-	while ( r2[bells - 1] != bells - 1 )
-	  r2 = lh * r2;
+	// Get the course head
+	if ( flags & whole_courses ) {
+	  row const lh( m.lh() );
+	  for ( int j=1; j < courselen && r2[bells - 1] != bells - 1; ++j )
+	    r2 *= lh;
+	}
 	r = mt->find(r2);
       }
 
-- 
2.43.0


From c63b3fced01bf6b475978716373dffddef707c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 087/183] fix: fextent -t aborted without -c and repeated
 courses on six bells or fewer

---
 apps/fextent/fextent.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index b4a0068..81eac60 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -435,6 +435,12 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( tenors_together && !whole_courses ) {
+    ap.error( "Searching for tenors-together leads is only supported "
+              "in whole courses" );
+    return false;
+  }
+
   if ( !generate_pends( ap ) ) 
     return false;
 
@@ -940,7 +946,8 @@ state::state( const method& m, int flags, const group& pgrp,
   nh = flags & principle ? 0 : 1;
 
   if ( flags & whole_courses )
-    nw = flags & tenors_together ? 5 : m.bells() - 1 - nh;
+    nw = flags & tenors_together ? min( 5, m.bells() - 1 - nh )
+                                 : m.bells() - 1 - nh;
   else
     nw = m.bells() - nh;
   
-- 
2.43.0


From f80d7430374cecfc8567c1b35b02314bfc720eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 088/183] fix: fextent never ended when given a negative number
 of iterations

---
 apps/fextent/fextent.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 81eac60..3e6943c 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -411,6 +411,11 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( num_steps < 0 ) {
+    ap.error( "The number of iterations must not be negative" );
+    return false;
+  }
+
   if ( bells < 4 || bells > int(bell::MAX_BELLS) ) {
     ap.error( make_string() << "The number of bells must be between 4 and " 
 	      << bell::MAX_BELLS << " (inclusive)" );
-- 
2.43.0


From 97918be79071f0ba74c057f2c92dddee1725a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 089/183] fix: fextent aborted or gave false results when
 weights were negative or were not whole numbers

---
 apps/fextent/fextent.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 3e6943c..1f24db2 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -60,6 +60,12 @@ static int sign( T i )
   else return 0;
 }
 
+// Whether two scores differ by no more than can be due to rounding
+static bool same_score( double a, double b )
+{
+  return fabs( a - b ) <= 1e-6 * ( 1 + fabs(a) );
+}
+
 static bool is_tt( row const& r, int nw = 6 )
 {
   for ( int b=nw, n=r.bells(); b<n; ++b )
@@ -1040,7 +1046,7 @@ bool state::check() const
     return false;
   }
 
-  if ( realsc != sc ) {
+  if ( !same_score( realsc, sc ) ) {
     cerr << "ERROR: Score mismatch: actual " << realsc << "; expected " << sc << endl;
     return false;
   }
@@ -1107,20 +1113,16 @@ private:
   // Row status
   //
   bool is_added( row_t const& r ) const
-    { map<row_t, double, row_t::cmp>::const_iterator i = rdiff.find(r);
+    { map<row_t, int, row_t::cmp>::const_iterator i = rdiff.find(r);
       return i != rdiff.end() && i->second > 0; }
   bool is_removed( row_t const& r ) const 
-    { map<row_t, double, row_t::cmp>::const_iterator i = rdiff.find(r);
+    { map<row_t, int, row_t::cmp>::const_iterator i = rdiff.find(r);
       return i != rdiff.end() && i->second < 0; }
 
-  // TODO:  It is bad to assume that  (double(w) - double(w) == 0.0)
-
   void do_add_row( row_t const& r )
-    { double const w( s.weight[ r.index() ] ); 
-      d += w; if ( (rdiff[r] += w) == 0 ) rdiff.erase(r); }
+    { d += s.weight[ r.index() ]; if ( ++rdiff[r] == 0 ) rdiff.erase(r); }
   void do_rm_row( row_t const& r )
-    { double const w( s.weight[ r.index() ] ); 
-      d -= w; if ( (rdiff[r] -= w) == 0 ) rdiff.erase(r); }
+    { d -= s.weight[ r.index() ]; if ( --rdiff[r] == 0 ) rdiff.erase(r); }
 
   //
   // General linkage
@@ -1146,7 +1148,7 @@ private:
   //
   state const& s;
 
-  map<row_t, double, row_t::cmp> rdiff; // +1 to add, -1 to remove
+  map<row_t, int, row_t::cmp> rdiff; // +1 to add, -1 to remove
   map<row_t, pair<int, size_t>, row_t::cmp> ldiff;
   double d;
 };
@@ -1228,15 +1230,15 @@ bool state::perturbation::check_delta() const
 {
   double real_delta(0);
 
-  for ( map<row_t, double, row_t::cmp>::const_iterator 
+  for ( map<row_t, int, row_t::cmp>::const_iterator 
 	  i(rdiff.begin()), e(rdiff.end());  i != e;  ++i )
-    real_delta += i->second;
+    real_delta += i->second * s.weight[ i->first.index() ];
 
   for ( map< row_t, pair<int, size_t>, row_t::cmp>::const_iterator 
 	  i(ldiff.begin()), e(ldiff.end());  i != e;  ++i )
     real_delta += i->second.first * s.link_weight;
 
-  return real_delta == d;
+  return same_score( real_delta, d );
 }
 
 void state::perturbation::try_add_qset( row_t const& r )
@@ -1421,7 +1423,7 @@ void state::perturbation::commit2( state& s, lead_state add, lead_state rm )
 {
   DEBUG( "Committing -- delta " << d );
 
-  for ( map<row_t, double, row_t::cmp>::const_iterator 
+  for ( map<row_t, int, row_t::cmp>::const_iterator 
 	  i(rdiff.begin()), e(rdiff.end());  i != e;  ++i )
     {
       DEBUG( "Commit row: " << i->first.index() << ", score " << i->second );
@@ -1430,10 +1432,9 @@ void state::perturbation::commit2( state& s, lead_state add, lead_state rm )
       if ( i->second > 0 && s.is_absent(i->first) ||
 	   i->second < 0 && s.is_present(i->first) )
 	{
-	  // TODO Gah! More assertions on floating equalities.  Bad, bad, bad.
-	  assert( s.weight[ i->first.index() ] == i->second * sign(i->second) );
-	  s.sc += i->second;
-	  s.len += sign(i->second);
+	  assert( i->second == sign(i->second) );
+	  s.sc += i->second * s.weight[ i->first.index() ];
+	  s.len += i->second;
 	}
 
       s.leads[ i->first.index() ] = ( (i->second > 0) ? add : rm );
-- 
2.43.0


From e38548282747d924dbe49a2a9ac12fae6921e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 090/183] fix: fextent aborted when a required lead was false
 against itself in another part

---
 apps/fextent/fextent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 1f24db2..392cbad 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -796,7 +796,8 @@ void state::init_req( const method& m, vector<row> const& required_rows )
       for ( vector<fch_t>::const_iterator fi( fchs.begin() ), fe( fchs.end() );
 	    fi != fe; ++fi ) {
 	row_t f( r * *fi );
-	if ( find( req_rows.begin(), req_rows.end(), f ) != req_rows.end() )
+	if ( f == r ||
+             find( req_rows.begin(), req_rows.end(), f ) != req_rows.end() )
 	  throw runtime_error
 	    ( "Error: the required rows conflict with the falseness" );
       }
-- 
2.43.0


From d6ed081a6195efad8bf40d263654f80a9099f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 091/183] fix: fextent -k linked leads to rounds when the
 linking lead was not in the table

---
 apps/fextent/fextent.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 392cbad..fb06f02 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -577,6 +577,7 @@ private:
   void init_req( method const& m, vector<row> const& required_rows );
   void init_qsets( method const& m, vector<change> const& calls );
   void init_lhs( method const& m, vector<change> const& calls );
+  bool is_in_table( row const& r ) const;
 
   class perturbation;
   friend class perturbation;
@@ -808,21 +809,34 @@ void state::init_req( const method& m, vector<row> const& required_rows )
   clear_status();
 }
 
+// Whether multiplying by the row takes rows in the table to ones in the table
+bool state::is_in_table( row const& r ) const
+{
+  for ( int i=0; i<nh; ++i )
+    if ( r[i] != i )
+      return false;
+
+  return !( flags & in_course_only ) || r.sign() == +1;
+}
+
 void state::init_lhs( method const& m, vector<change> const& calls )
 {
   assert( !( flags & whole_courses ) );
 
-  lhs.push_back( make_pair( mt->compute_post_mult( m.lh() ),
-			    mt->compute_post_mult( m.lh().inverse() ) ) );
-
   row const le( m.lh() * m.back() );
 
+  vector<row> rows( 1, m.lh() );
   for ( size_t ci(0); ci != calls.size(); ++ci ) 
-    {
-      row const lh( le * calls[ci] );
-      lhs.push_back( make_pair( mt->compute_post_mult( lh ),
-				mt->compute_post_mult( lh.inverse() ) ) );
-    }
+    rows.push_back( le * calls[ci] );
+
+  for ( vector<row>::const_iterator i( rows.begin() ), e( rows.end() ); 
+        i != e; ++i )
+    if ( is_in_table(*i) ) 
+      lhs.push_back( make_pair( mt->compute_post_mult( *i ),
+				mt->compute_post_mult( i->inverse() ) ) );
+
+  if ( lhs.empty() )
+    throw runtime_error( "Error: none of the leads can be linked" );
 }
 
 void state::init_qsets( method const& m, vector<change> const& calls )
@@ -865,6 +879,7 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 		  const row q( *li * *qi * *lj );
 		  
 		  if ( q[bells-1] != bells-1 ) continue;
+		  if ( !is_in_table(q) ) continue;
 		  if ( (flags & tenors_together) && !is_tt(q) ) continue;
 
 		  // We'll calculate the inverse at some point anyway
-- 
2.43.0


From e4c788c313d1564453e364a74b7b18f585ceac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 092/183] fix: fextent reported sets of leads of methods which
 are false in the plain lead or course

---
 apps/fextent/fextent.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index fb06f02..4169631 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -24,6 +24,7 @@
 #include <ringing/pointers.h>
 #include <ringing/streamutils.h>
 #include <ringing/mathutils.h>
+#include <ringing/proof.h>
 
 #include <vector>
 #include <cmath>
@@ -978,6 +979,20 @@ state::state( const method& m, int flags, const group& pgrp,
   else
     nw = m.bells() - nh;
   
+  // No set can be true if the lead or course isn't
+  {
+    vector<row> rows;
+    row r( bells );
+    for ( int i=0, n=( flags & whole_courses ? courselen : 1 ); i < n; ++i )
+      for ( method::const_iterator j( m.begin() ), e( m.end() ); j != e; ++j ) {
+	rows.push_back( r );
+	r *= *j;
+      }
+    if ( !proof< vector<row>::const_iterator >( rows.begin(), rows.end(), true ) )
+      throw runtime_error( make_string() << "Error: the method's plain " 
+        << ( flags & whole_courses ? "course" : "lead" ) << " is false" );
+  }
+
   init_mt( m, pgrp, wprof );
  
   if ( flags & whole_courses )
-- 
2.43.0


From 3f81c6dbd1ac47fee21d691c0702d99f478fb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 093/183] fix: fextent -c gave wrong results for methods whose
 treble is not home at the lead head

---
 apps/fextent/fextent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 4169631..d41a2c9 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -442,7 +442,7 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
-  if ( principle & whole_courses ) {
+  if ( whole_courses && ( principle || meth.lh()[0] != 0 ) ) {
     ap.error( "Searching for principles in whole courses is not supported" );
     return false;
   }
-- 
2.43.0


From 3e6c72637f8a7fb4be363125f0fbb475f439751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 094/183] fix: fextent -q printed the Q-sets

---
 apps/fextent/fextent.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index d41a2c9..d2d3700 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -476,7 +476,8 @@ public:
     in_course_only  = 0x01,
     tenors_together = 0x02,
     whole_courses   = 0x04,
-    principle       = 0x08
+    principle       = 0x08,
+    quiet           = 0x10
   };
 
   state( const method& m, int flags, const group& pgrp,
@@ -909,7 +910,8 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 		ok = false;
 
 	  if (ok) {
-	    cout << string(desc) << endl;
+	    if ( !(flags & quiet) )
+	      cout << string(desc) << endl;
 	    qsets.push_back( make_pair( qset, ci ) );
 	    qinverses.push_back( qinverse );
 	  }
@@ -1578,6 +1580,7 @@ int main( int argc, char* argv[] )
       if ( args.whole_courses )   stflags |= state::whole_courses;
       if ( args.tenors_together ) stflags |= state::tenors_together;
       if ( args.principle )       stflags |= state::principle;
+      if ( args.quiet )           stflags |= state::quiet;
       
       s.reset( new state( args.meth, stflags, args.pends, args.required, 
 			  args.calls, args.wprof  ) );
-- 
2.43.0


From d0a95e2bdc1eb79116d0010d4752da3970b0c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 095/183] fix: fextent -k could remove required leads

---
 apps/fextent/fextent.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index d2d3700..9e35033 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -1502,6 +1502,7 @@ bool state::perturbation::prune_unlinked( row_t const& r )
 {
   if ( ( s.is_present(r) && !is_removed(r) ||
 	 s.is_absent (r) &&  is_added  (r) ) &&
+       s.leads[r.index()] != required &&
        get_linkage(r) == size_t(-1) )
     {
       do_rm_row(r);
@@ -1532,10 +1533,7 @@ void state::prune_unlinked()
       if ( done_anything ) 
 	p.commit( *this );
       else
-	{
-	  assert( fully_linked() );
-	  return;
-	}
+	return; // fully linked, except perhaps for required leads
     }
 }
 
-- 
2.43.0


From 2223725fb5995c4c853be117127dc44d03824b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 096/183] fix: fextent -c could report false sets when a course
 has several course heads

---
 apps/fextent/fextent.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 9e35033..7ab72be 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -27,6 +27,8 @@
 #include <ringing/proof.h>
 
 #include <vector>
+#include <set>
+#include <algorithm>
 #include <cmath>
 #include <ctime>
 #include <iterator>
@@ -715,15 +717,25 @@ void state::init_fchs( method const& m )
 
   status_out( "Calculating false course table ..." );
 
-  false_courses ft
-    (m, ( flags & tenors_together ? false_courses::tenors_together : 0 )
-     |  ( flags & in_course_only  ? false_courses::in_course_only  : 0 ) );
+  // If some lead head other than rounds has the tenor at home, a course has
+  // several course heads, of which false_courses only gives one.
+  set<row> ft;
+  {
+    false_courses const fc(m);
+    group const lhg( m.lh() );
+
+    for ( false_courses::const_iterator i( fc.begin() ), e( fc.end() );
+	  i != e; ++i )
+      for ( group::const_iterator gi( lhg.begin() ), ge( lhg.end() );
+	    gi != ge; ++gi ) 
+	if ( (*gi)[bells-1] == bells-1 && is_in_table( *i * *gi ) )
+	  ft.insert( *i * *gi );
+  }
   
   fchs.reserve( ft.size() );
   
   int n(0);
-  for ( false_courses::const_iterator i( ft.begin() ), e( ft.end() );
-	i != e; ++i )
+  for ( set<row>::const_iterator i( ft.begin() ), e( ft.end() ); i != e; ++i )
     if ( !i->isrounds() ) {
       status_out( make_string() << "Calculating false course table "
 		  "[" << ++n << "/" << ft.size() <<  "] ..." );
@@ -814,8 +826,8 @@ void state::init_req( const method& m, vector<row> const& required_rows )
 // Whether multiplying by the row takes rows in the table to ones in the table
 bool state::is_in_table( row const& r ) const
 {
-  for ( int i=0; i<nh; ++i )
-    if ( r[i] != i )
+  for ( int i=0; i<bells; ++i )
+    if ( ( i < nh || i >= nh+nw ) && r[i] != i )
       return false;
 
   return !( flags & in_course_only ) || r.sign() == +1;
-- 
2.43.0


From 412c8272fb00ea35aee945f8cdf4674834942fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 097/183] fix: fextent -k -c aborted or miscounted the links of
 some Q-sets

---
 apps/fextent/fextent.cpp | 169 +++++++++++++--------------------------
 1 file changed, 54 insertions(+), 115 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 7ab72be..8f49160 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -616,9 +616,8 @@ private:
   vector<double> weight;
   vector<fch_t> fchs;
   vector<row_t> req_rows;
-  vector< pair< vector< pair< fch_t, 
-			      size_t /*inverse qset index*/> >, 
-                size_t /*change_index*/> > qsets;
+  vector< pair< vector<fch_t>, size_t /*change_index*/> > qsets;
+  vector<fch_t> qinverses; // the rows which take a Q-set's members back
   vector< pair< fch_t, fch_t > > lhs; // forward & reverse
   vector<lead_state> leads;
   vector<size_t> linkage; // if qsets.size(), indices into the qsets vector, or size_t(-1)
@@ -646,7 +645,7 @@ void state::dump( ostream& os ) const
 		for ( size_t i(0), n(qsets[qidx].first.size()); 
 		      i != n && count == i; ++i )
 		  {
-		    row_t q = r * qsets[qidx].first[i].first;
+		    row_t q = r * qsets[qidx].first[i];
 		    if (q != r && is_present(q) ) {
 		      ++count;
 		      desc << " " << q.index();
@@ -858,7 +857,6 @@ void state::init_qsets( method const& m, vector<change> const& calls )
   assert( flags & whole_courses );
 
   group const lhg( m.lh() );
-  vector< vector<fch_t> > qinverses;
 
   int n(0);
   for ( size_t ci(0); ci != calls.size(); ++ci )
@@ -871,7 +869,7 @@ void state::init_qsets( method const& m, vector<change> const& calls )
       group::const_iterator const le( lhg.end() );
       for ( group::const_iterator li( lhg.begin() ); li != le; ++li ) 
 	{
-	  vector< pair<fch_t, size_t> > qset;
+	  vector<fch_t> qset;
 	  vector<fch_t> qinverse;
 	  
 	  make_string desc;
@@ -900,8 +898,7 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 		  // so this does not add to the size of mt.
 		  qinverse.push_back( mt->compute_post_mult( q.inverse() ) );
 
-		  qset.push_back
-		    ( make_pair( mt->compute_post_mult(q), size_t(-1) ) );
+		  qset.push_back( mt->compute_post_mult(q) );
 
 		  desc << " " << q;
 
@@ -912,65 +909,24 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 	  bool ok( qset.size() == qproto.size()-1 );
 
 	  // Check that the Q-set does not intersect the FCHs.
-	  for ( vector< pair<fch_t, size_t> >::const_iterator 
+	  for ( vector<fch_t>::const_iterator 
 		  qi( qset.begin() ), qe( qset.end() );
 		ok && qi != qe; ++qi )
 	    for ( vector<fch_t>::const_iterator 
 		    fi( fchs.begin() ), fe( fchs.end() );
 		  ok && fi != fe; ++fi )
-	      if ( *fi == qi->first )
+	      if ( *fi == *qi )
 		ok = false;
 
 	  if (ok) {
 	    if ( !(flags & quiet) )
 	      cout << string(desc) << endl;
 	    qsets.push_back( make_pair( qset, ci ) );
-	    qinverses.push_back( qinverse );
+	    copy( qinverse.begin(), qinverse.end(), back_inserter(qinverses) );
 	  }
 	}
     }
 
-  {
-    // Set up the inverse Q-set links 
-    //
-    size_t const n( qsets.size() );
-    assert( qinverses.size() == n );
-
-    for ( size_t i(0); i != n; ++i ) 
-      {
-	group const qproto( row() * m.back() * calls[qsets[i].second] );
-
-	size_t const m( qproto.size() - 1 );
-	assert( m == qsets[i].first.size() );
-
-	for ( size_t j(0); j != m; ++j )
-	  {
-	    // Locate the inverse element in the Q-set
-	    size_t jinv;
-	    {
-	      group::const_iterator gi( qproto.begin() ); 
-	      advance( gi, j+1 );
-	      gi = find( qproto.begin(), qproto.end(), gi->inverse() );
-	      jinv = distance( qproto.begin(), gi ) - 1;
-	    }
-
-	    bool found(false);
-
-	    for ( size_t k(0); !found && k != n; ++k )
-	      if ( qsets[i].second == qsets[k].second ) 
-		{
-		  assert( qsets[k].first.size() == m );
-		  if ( qsets[i].first[j].first == qinverses[k][jinv] )
-		    {  
-		      qsets[i].first[j].second = k;
-		      found = true;
-		    }
-		}
-	    assert(found);
-	  }
-      }
-  }
-
   clear_status();
 
   if ( qsets.empty() )
@@ -1049,7 +1005,7 @@ size_t state::check_qsets( row_t r ) const
 
       for ( size_t i(0); i != n && count == i; ++i )
 	{
-	  row_t const q( r * qsets[qi].first[i].first );
+	  row_t const q( r * qsets[qi].first[i] );
 
 	  // Handle Q-sets that are partially self-Q-sets
 	  // That is, Q-sets where some, but not all, of the elements 
@@ -1057,7 +1013,7 @@ size_t state::check_qsets( row_t r ) const
 	  // This can happen with Q-sets that affect the tenors.
 	  bool self( q == r );
 	  for ( size_t j(0); !self && j != i; ++j )
-	    if ( r * qsets[qi].first[j].first == q )
+	    if ( r * qsets[qi].first[j] == q )
 	      self = true;
 
 	  if (self) 
@@ -1179,8 +1135,9 @@ private:
   //
   // Q-set linkage
   //
-  void remove_qset( row_t const& r );
-  void try_add_qset( row_t const& r );
+  size_t find_qset( row_t const& r ) const;
+  void update_link( row_t const& r );
+  void update_qsets( row_t const& r );
 
   //
   // Lead linkage
@@ -1286,74 +1243,56 @@ bool state::perturbation::check_delta() const
   return same_score( real_delta, d );
 }
 
-void state::perturbation::try_add_qset( row_t const& r )
+// Find a complete Q-set including this row, if there is one
+size_t state::perturbation::find_qset( row_t const& r ) const
 {
-  if ( ( s.is_present(r) && !is_removed(r) ||
-	 s.is_absent (r) &&  is_added  (r) ) &&
-       get_linkage(r) == size_t(-1) )
+  for ( size_t qi(0); qi != s.qsets.size(); ++qi )
     {
-      for ( size_t qi(0); qi != s.qsets.size(); ++qi )
-	{
-	  size_t count(0), n(s.qsets[qi].first.size());
+      size_t count(0), n(s.qsets[qi].first.size());
 
-	  for ( size_t i(0); i != n && count == i; ++i )
-	    {
-	      row_t const q( r * s.qsets[qi].first[i].first );
+      for ( size_t i(0); i != n && count == i; ++i )
+	{
+	  row_t const q = r * s.qsets[qi].first[i];
 	      
-	      bool self( q == r );
-	      for ( size_t j(0); !self && j != i; ++j )
-		if ( r * s.qsets[qi].first[j].first == q )
-		  self = true;
-
-	      if (self) 
-		; // exclude "self" Q-sets
-	      else if ( s.is_present(q) && !is_removed(q) ||
-			s.is_absent(q) && is_added(q) )
-		++count;
-	    }
-
-	  if ( count == n )
-	    {
-	      DEBUG( "Found link to add to " << r.index() << ": " << qi );
-
-	      if ( get_linkage(r) == size_t(-1) )
-		do_add_link(r, qi);
-
-	      for ( size_t i(0); i != n; ++i ) 
-		{
-		  row_t const q = r * s.qsets[qi].first[i].first;
+	  bool self( q == r );
+	  for ( size_t j(0); !self && j != i; ++j )
+	    if ( r * s.qsets[qi].first[j] == q )
+	      self = true;
 
-		  if ( get_linkage(q) == size_t(-1) )
-		    do_add_link( q, s.qsets[qi].first[i].second );
-		}
-	    }
+	  if (self) 
+	    ; // exclude "self" Q-sets
+	  else if ( s.is_present(q) && !is_removed(q) ||
+		    s.is_absent(q) && is_added(q) )
+	    ++count;
 	}
+
+      if ( count == n )
+	return qi;
     }
+  return size_t(-1);
 }
 
-void state::perturbation::remove_qset( row_t const& r )
+// Add or remove the link of a row after it or one of its Q-sets has changed
+void state::perturbation::update_link( row_t const& r )
 {
-  if ( get_linkage(r) != size_t(-1) )
-    {
-      DEBUG( "Remove Q-set link " << r.index() );
-
-      do_rm_link(r);
-
-      // Remove links elsewhere
-      for ( size_t i=0, n=s.qsets.size(); i != n; ++i ) 
-	for ( size_t j=0, m=s.qsets[i].first.size(); j != m; ++j )
-	  {
-	    row_t const q( r * s.qsets[i].first[j].first );
+  size_t link( size_t(-1) );
+  if ( s.is_present(r) && !is_removed(r) || s.is_absent(r) && is_added(r) )
+    link = find_qset(r);
+
+  if ( link != size_t(-1) && get_linkage(r) == size_t(-1) )
+    do_add_link( r, link );
+  else if ( link == size_t(-1) && get_linkage(r) != size_t(-1) )
+    do_rm_link( r );
+}
 
-	    if ( get_linkage(q) == s.qsets[i].first[j].second )
-	      do_rm_link(q);
-	  }
+// Update all of the links that a change to a row affects
+void state::perturbation::update_qsets( row_t const& r )
+{
+  update_link( r );
 
-      // Fix up new links elsewhere in the Q-set if possible
-      for ( size_t i=0, n=s.qsets.size(); i != n; ++i ) 
-	for ( size_t j=0, m=s.qsets[i].first.size(); j != m; ++j )
-	  try_add_qset( r * s.qsets[i].first[j].first );
-    }
+  for ( vector<fch_t>::const_iterator 
+	  i( s.qinverses.begin() ), e( s.qinverses.end() ); i != e; ++i )
+    update_link( r * *i );
 }
 
 void state::perturbation::remove_lh( row_t const& r )
@@ -1429,7 +1368,7 @@ bool state::perturbation::remove_row( row_t const& r, lead_state new_state )
       do_rm_row(r);
   
       if ( s.qsets.size() )
-	remove_qset(r);
+	update_qsets(r);
       else if ( s.lhs.size() ) 
 	remove_lh(r);
     }
@@ -1457,7 +1396,7 @@ bool state::perturbation::add_row( row_t const& r )
       do_add_row(r);
 
       if ( s.qsets.size() )
-	try_add_qset(r);
+	update_qsets(r);
       else if ( s.lhs.size() )
 	try_add_lh(r);
     }
@@ -1520,7 +1459,7 @@ bool state::perturbation::prune_unlinked( row_t const& r )
       do_rm_row(r);
 
       if ( s.qsets.size() )
-	remove_qset(r);
+	update_qsets(r);
       else if ( s.lhs.size() ) 
 	remove_lh(r);
 
-- 
2.43.0


From 9f1a9a6d049835faa6a072b7ce271c12b70ebe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 098/183] fix: splices printed a debugging message for every
 pair

---
 apps/splices/splices.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 9594008..2eb3b27 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -553,8 +553,6 @@ string splices::test_splice( method const& a, vector<row> const& b,
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
     return string();
 
-cerr << "Got " << sg.size() << endl;
-
   string desc( describe_splice(sg) );
   if ( !args.group_splices /* && !args.filter_mode */ ) {
     cout << name_or_pn(args, a);
-- 
2.43.0


From d6dd63b360dfe2f775d354cf73df09946ec98119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 099/183] fix: splices -I printed the splices between the
 methods as well as the methods

---
 apps/splices/splices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 2eb3b27..4a0d880 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -554,7 +554,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
     return string();
 
   string desc( describe_splice(sg) );
-  if ( !args.group_splices /* && !args.filter_mode */ ) {
+  if ( !args.group_splices && !args.filter_mode ) {
     cout << name_or_pn(args, a);
     if ( args.meth.size() != 1 ) 
       cout << " / " << b_name;
-- 
2.43.0


From 50501de1c8ddd06945e96da34825766084f0b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 100/183] fix: splices -g -l did not bracket the methods with
 lead splices

---
 apps/splices/splices.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 4a0d880..2e95320 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -547,10 +547,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
 
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 &&
        // Need to store lead splices if we're to group them
-       ( !args.group_splices && !args.filter_mode || sg.size() != 2 ) )
-    return string();
-
-  if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
+       ( !args.group_splices || sg.size() != 2 ) )
     return string();
 
   string desc( describe_splice(sg) );
-- 
2.43.0


From 58cbdbef214c88dae85555fb4f07907c0fe98ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 101/183] fix: splices -h only used a quarter of the second
 method's lead

---
 apps/splices/splices.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 2e95320..e74d1ab 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -567,12 +567,10 @@ bool splices::test_splice( method const& a, method const& b )
   if ( !args.group_splices && args.same_le && a.back() != b.back() )
     return false;
 
-  int flags = row_block::no_final_lead_head; 
-  if ( args.half_leads ) 
-    flags |= row_block::half_lead_only;
-
+  // NB the falseness table discards the second half if -h is used
   row lh(args.bells);
-  string desc = test_splice( a, row_block(b, lh, flags), name_or_pn(args, b) );
+  string desc = test_splice( a, row_block(b, lh, row_block::no_final_lead_head),
+                             name_or_pn(args, b) );
 
   if ( desc.size() && ( args.group_splices || args.filter_mode ) )
     save_splice( a, b, desc );
-- 
2.43.0


From bc6257da9fc286317cd7a7deaa29c8d3b7f3dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 102/183] fix: splices -g -e read past the end of the shorter
 of two methods

---
 apps/splices/splices.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index e74d1ab..efe53a8 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -308,7 +308,8 @@ bool splices::is_just_le_vars( set<method> const& s ) const
   if (s.size() < 2) return true;
   set<method>::const_iterator first=s.begin(), i=first, e=s.end();
   for (++i; i!=e; ++i) 
-    if ( !equal( i->begin(), i->end()-1, first->begin() ) )
+    if ( i->length() != first->length() ||
+         !equal( i->begin(), i->end()-1, first->begin() ) )
       return false;
   return true;
 }
-- 
2.43.0


From b4a33a1e7cc7108f94bb4900f3ea52245bf874b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 103/183] fix: spliceplan aborted on part ends or methods that
 do not fit

---
 apps/spliceplan/spliceplan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index ec9700c..0ef3bea 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -870,6 +870,7 @@ int main(int argc, char const* argv[] )
   bell::set_symbols_from_env();
 
 
+  try {
   arguments args( argc, argv );
 
   const bool search = true;
@@ -881,4 +882,9 @@ int main(int argc, char const* argv[] )
     for ( int i=1; i<argc; ++i )
       a.add_plan( argv[i] );
   } 
+  }
+  catch ( exception const& e ) {
+    cerr << "spliceplan: " << e.what() << endl;
+    return 1;
+  }
 }
-- 
2.43.0


From 77fc297ce0e6ea75ca0481ea20008df0fed2d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 104/183] fix: spliceplan's plans had leads which are false in
 themselves or against their other parts

---
 apps/spliceplan/spliceplan.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 0ef3bea..8bc0b3d 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -378,6 +378,7 @@ private:
   void init_search();
   void select_possibles( row_t& lh, vector<method_ptr>& meths ) const;
   bool is_possible( row_t const& lh, method_ptr const& m ) const;
+  bool is_self_true( row_t const& lh, method_ptr const& m ) const;
   void found( unsigned rotn_count );
   void set_method( row_t const& lh, method_ptr const& m );
   void unset_method( row_t const& lh, method_ptr const& m );
@@ -446,11 +447,38 @@ void searcher::init_falseness()
   }
 }
 
+// Is a lead true in itself and against itself in the other parts?
+bool searcher::is_self_true( row_t const& lh, 
+                             searcher::method_ptr const& m ) const
+{
+  row_block const rb( m->meth, row_block::no_final_lead_head );
+  if ( set<row>( rb.begin(), rb.end() ).size() != rb.size() )
+    return false;
+
+  falseness_tab const& ft = false_data.find( make_pair(m, m) )->second;
+
+  for ( vector<row_t>::const_iterator
+          pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi ) {
+    row_t const lh2 = *pi * lh;
+    if ( pi->isrounds() || lh2 == lh * m->le )  // NB. the lead is palindromic
+      continue;
+    for ( falseness_tab::const_iterator fi=ft.begin(), fe=ft.end(); 
+          fi!=fe; ++fi )
+      if ( lh * *fi == lh2 )
+        return false;
+  }
+
+  return true;
+}
+
 bool searcher::is_possible( row_t const& lh, 
                             searcher::method_ptr const& m ) const
 {
   row_t le = lh * m->le;
 
+  if ( !is_self_true( lh, m ) )
+    return false;
+
   // Is the le you would get by ringing a lead of the method free?
   if ( le != lh && free_lhs.find(le) == free_lhs.end() )
     return false;
-- 
2.43.0


From 3faa7a3438cdfe5a9e6aad42f3706bcb69251bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 105/183] fix: splices ignored a file of rows which it could
 not read

---
 apps/splices/splices.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index efe53a8..7c8984e 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -646,6 +646,10 @@ int main( int argc, char *argv[] )
 
   else if ( !args.rows_file.empty() ) {
     ifstream in(args.rows_file);
+    if ( !in ) {
+      cerr << "splices: Unable to open file: " << args.rows_file << endl;
+      exit(1);
+    }
     args.rows.assign( istream_iterator<row>(in), istream_iterator<row>() );
   }
 
-- 
2.43.0


From e70b2c4b2b04a226bfc43e1469b91a2622688554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 106/183] fix: splices took the factorial of a negative number
 when there was no falseness, and overflowed on many bells

---
 apps/splices/splices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 7c8984e..5cbe493 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -498,8 +498,8 @@ string splices::describe_splice( group const& sg ) const
   make_string os;
   os << (sg.size()/2) << "-lead";
 
-  int const f2 = factorial(sg.bells() - hunts - 2);
-  int const f1 = f2 * (sg.bells() - hunts - 1);
+  size_t const f2 = sg.bells() < hunts + 2 ? 0 : factorial(sg.bells() - hunts - 2);
+  size_t const f1 = f2 * (sg.bells() - hunts - 1);
 
   if (sg.size() > 2 && (sg.size() == f1 || sg.size() == f1/2)) {
     bell pivot = get_pivot(sg);
-- 
2.43.0


From a823038b21c24a336ac099c9ef626ded6c6fda4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 107/183] fix: methsearch applied the first change of a
 principle's mask throughout, and ignored the rest

---
 apps/methsearch/mask.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..8747e7f 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -818,14 +818,16 @@ bool parse_mask( arguments &args )
   assert( below.size() == size_t(lead_len) );
 
   for ( int i=0; i<lead_len; ++i ) {
-    // Don't recalculate for every place in a principle: this is very 
-    // inefficient when doing -IAU0 -Fx type filters.
-    if (args.hunt_bells 
-         || args.allowed_changes.size() < (args.right_place ? 2 : 1)) 
-      args.allowed_changes.push_back( vector<change>() );
-    else 
-      args.allowed_changes.push_back( 
-        args.allowed_changes[args.right_place ? i%2 : 0] );
+    args.allowed_changes.push_back( vector<change>() );
+
+    // Don't recalculate for every unspecified place in a principle: this is 
+    // very inefficient when doing -IAU0 -Fx type filters.
+    if ( !args.hunt_bells && above[i].empty() )
+      for ( int j = i-1; j >= 0; --j )
+        if ( above[j].empty() && !( args.right_place && (i-j) % 2 ) ) {
+          args.allowed_changes[i] = args.allowed_changes[j];
+          break;
+        }
 
     vector<change>& changes_to_try = args.allowed_changes.back();
 
-- 
2.43.0


From a523b4a400b5fbb4a9e75aede70a0b885255162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 108/183] fix: methsearch did not notice that a mask containing
 a '*' was too long

---
 apps/methsearch/mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 8747e7f..6dfa0f4 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -265,7 +265,7 @@ shared_pointer<block> read_block( const int num,
 
 // Convert a '*' to a sequences of '?'s
 void expand_block( vector< vector< change > >& block1, 
-                   bool star_sym, size_t star_index, size_t expand_by )
+                   bool star_sym, size_t star_index, int expand_by )
 {
   if ( star_sym ) 
     assert( block1.size() % 2 );
-- 
2.43.0


From 12e76604de63826747c5e0647efe2d3ef5469e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 109/183] fix: methsearch ignored the parts of a mask that lay
 where symmetry determines the change

---
 apps/methsearch/mask.cpp | 159 +++++++++++++++++++--------------------
 1 file changed, 78 insertions(+), 81 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 6dfa0f4..6ed8ec8 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -683,91 +683,85 @@ vector<change> reverse_allowed( const vector<change>& ch )
   return rv;
 }
 
-bool unordered_equal( const vector<change>& a, const vector<change>& b )
+// The positions which are related to position I by the symmetries we want,
+// and whether the change made there is the reverse of the one made at I.
+vector< pair<int, bool> > related_positions( const arguments& args, int i )
 {
-  for ( vector<change>::const_iterator i(a.begin()), e(a.end());
-        i != e;  ++i )
-    if ( find( b.begin(), b.end(), *i ) == b.end() )
-      return false;
-  return true;
+  const int len = args.lead_len;
+  const int offset = args.hunt_bells && args.hunt_bells % 2 == 0
+    ? 1 + args.treble_dodges : 0;
+
+  vector< pair<int, bool> > rv;
+  if ( args.sym )
+    rv.push_back( make_pair( (2*len + 2*offset - 2 - i) % len, false ) );
+  if ( args.doubsym )
+    rv.push_back( make_pair( (i + len/2) % len, true ) );
+  if ( args.skewsym )
+    rv.push_back( make_pair( (2*len + 2*(len/4 - 1 + offset)
+                               + (len % 4 == 0 ? 0 : 1) - i) % len, true ) );
+  return rv;
 }
 
-bool is_mask_consistent( arguments &args, 
-                         const vector<vector<change> > &above,
-                         const vector<vector<change> > &below )
+// If the mask says what is to be done at one position, it also says what is
+// to be done at those positions which are related to it by symmetry.
+void complete_mask( const arguments& args, 
+                    vector< vector<change> >& above,
+                    vector< vector<change> >& below )
 {
-  assert( args.lead_len );
-  const int hl_len = args.lead_len / 2;
-
-  for ( int depth=0; depth < 2*hl_len; ++depth ) {
-    if ( args.skewsym ) {
-      const int depth2( ( depth > hl_len ? 3 : 1 ) * hl_len
-                        - args.hunt_bells % 2 * 2 - depth );
-
-      if ( depth2 < 0 || depth2 >= hl_len*2 || depth2 == depth )
-          continue;
-
-      // FIXME Quarter-lead change
-
-      int other_index( ( depth > hl_len ? 3 : 1 ) * hl_len 
-                       - args.hunt_bells % 2 * 2 - depth );
-
-      const vector<change> &ch1a = above[depth];
-      const vector<change> &ch1b = below[depth];
-      const vector<change> &ch2a = above[other_index];
-      const vector<change> &ch2b = below[other_index];
-
-      if ( ch1a.size() && ch2b.size() &&
-           !unordered_equal( ch1a, reverse_allowed(ch2b) ) )
-        return false;
-
-      if ( ch1b.size() && ch2a.size() &&
-           !unordered_equal( ch1b, reverse_allowed(ch2a) ) )
-        return false;
-    }
-
-    if ( args.doubsym ) {
-      int other_index( (depth + hl_len) % (2 * hl_len) );
-
-      const vector<change> &ch1a = above[depth];
-      const vector<change> &ch1b = below[depth];
-      const vector<change> &ch2a = above[other_index];
-      const vector<change> &ch2b = below[other_index];
-
-      if ( ch1a.size() && ch2b.size() &&
-           !unordered_equal( ch1a, reverse_allowed(ch2b) ) )
-        return false;
-
-      if ( ch1b.size() && ch2a.size() &&
-           !unordered_equal( ch1b, reverse_allowed(ch2a) ) )
-        return false;
+  bool done;
+  do {
+    done = true;
+    for ( int i=0; i < args.lead_len; ++i ) {
+      const vector< pair<int, bool> > rel( related_positions(args, i) );
+      for ( size_t k=0; k < rel.size(); ++k ) {
+        vector<change> &a = (rel[k].second ? below : above)[rel[k].first],
+                       &b = (rel[k].second ? above : below)[rel[k].first];
+        if ( above[i].size() && a.empty() ) {
+          a = rel[k].second ? reverse_allowed( above[i] ) : above[i];
+          done = false;
+        }
+        if ( below[i].size() && b.empty() ) {
+          b = rel[k].second ? reverse_allowed( below[i] ) : below[i];
+          done = false;
+        }
+      }
     }
+  } while ( !done );
+}
 
-    if ( args.sym ) {
-      size_t offset = (args.hunt_bells && args.hunt_bells % 2 == 0) ? 1 : 0;
-      if ( 2 * (hl_len - 1 + offset) - depth < 0 || 
-           2 * (hl_len - 1 + offset) - depth >= 2 * hl_len )
-        continue;
-
-      int other_index( 2 * (hl_len - 1 + offset) - depth );
-      assert( other_index >= 0 ); assert( other_index <= above.size() );
-
-      const vector<change> &ch1a = above[depth];
-      const vector<change> &ch1b = below[depth];
-      const vector<change> &ch2a = above[other_index];
-      const vector<change> &ch2b = below[other_index];
-
-      if ( ch1a.size() && ch2a.size() &&
-           !unordered_equal( ch1a, ch2a ) )
-        return false;
+// Remove changes which cannot be used because the corresponding changes
+// are not allowed at the positions related by symmetry.
+void restrict_to_symmetry( arguments& args )
+{
+  bool done;
+  do {
+    done = true;
+    for ( int i=0; i < args.lead_len; ++i ) {
+      const vector< pair<int, bool> > rel( related_positions(args, i) );
+      for ( size_t k=0; k < rel.size(); ++k ) {
+        const bool rev = rel[k].second, self = rel[k].first == i;
+        const vector<change> other( args.allowed_changes[rel[k].first] );
+        const set<change> ok( other.begin(), other.end() );
+
+        vector<change> keep;
+        for ( size_t c=0; c < args.allowed_changes[i].size(); ++c ) {
+          const change& ch = args.allowed_changes[i][c];
+          if ( rev && self ? ch == ch.reverse()
+                           : ok.count( rev ? ch.reverse() : ch ) )
+            keep.push_back(ch);
+        }
 
-      if ( ch1b.size() && ch2b.size() &&
-           !unordered_equal( ch1b, ch2b ) )
-        return false;
+        if ( keep.size() != args.allowed_changes[i].size() ) {
+          args.allowed_changes[i].swap(keep);
+          done = false;
+        }
+      }
+      if ( args.allowed_changes[i].empty() )
+        throw mask_error
+          ( "Some of the required changes specified are inconsistent "
+            "with the specified symmetries" );
     }
-  }
-
-  return true;
+  } while ( !done );
 }
 
 void changes_have_double_symmetry( arguments& args )
@@ -806,10 +800,9 @@ bool parse_mask( arguments &args )
   if ( !read_and_expand_blocks( args, above, below ) )
     return false;
 
-  if ( args.lead_len && !is_mask_consistent(args, above, below) )
-    throw mask_error
-      ( "Some of the required changes specified are inconsistent "
-        "with the specified symmetries" );
+  const bool use_sym = args.mask != "*" && args.lead_len && !args.floating_sym;
+  if ( use_sym )
+    complete_mask(args, above, below);
 
   // ----------------------------------
   // Expand ? to appropriate alternative lists
@@ -862,5 +855,9 @@ bool parse_mask( arguments &args )
                           "There no possible changes at position " << i );
     }
   }
+
+  if ( use_sym )
+    restrict_to_symmetry(args);
+
   return true;
 }
-- 
2.43.0


From b35d44592bbb3af8c4f40a1ea64d1e5636c0afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 110/183] fix: groups mishandled rows on a different number of
 bells when labelling cosets or conjugating

---
 ringing/group.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 4bf2630..fbd069b 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -217,7 +217,7 @@ group group::conjugate( const row& r ) const
 {
   group g;
 
-  g.b = b;
+  g.b = b < r.bells() ? r.bells() : b;
   g.v.clear();  // Default constructor populates it with a single element
   g.v.reserve( v.size() );
 
@@ -271,13 +271,18 @@ bool operator>( const group& a, const group& b )
 
 row group::rcoset_label( row const& r ) const
 {
+  if ( r.bells() < bells() ) return rcoset_label( r * row(bells()) );
+
   if ( size() == 1 ) return r;
 
   // |G|=6 is the point at which the O(1) algorithm beats the O(|G|) one.
   if ( size() >= 6 && is_direct_product_of_symmetric_groups( o, size() ) ) 
   {
     // Use an O(1) algorithm.
-    vector<bell> label( r.bells() );
+    // (Bells beyond those of the group are not moved by it.)
+    vector<bell> label;
+    for ( int i=0; i<r.bells(); ++i )
+      label.push_back( r[i] );
 
     for ( vector< vector<bell> >::const_iterator i=o.begin(), e=o.end(); 
             i != e; ++i ) {
-- 
2.43.0


From 65aeeec4b23c1e472dd981335a2b53ce722910ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 111/183] fix: methsearch lost track of the start row when it
 undid the symmetric part of a lead

---
 apps/methsearch/search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..b13bc47 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -397,7 +397,7 @@ public:
 
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
-    if ( r2 != args.start_row )
+    if ( r2 != args.pends.rcoset_label(args.start_row) )
       p.add_row(r2);
     return p.truth();
   }
@@ -648,7 +648,7 @@ inline void searcher::pop_change( row const* r_old )
         && prv )
       prv->remove_row(r);
     if ( r_old ) r = *r_old;  
-    else r = args.pends.rcoset_label( m.lh() );
+    else r = args.pends.rcoset_label( args.start_row * m.lh() );
   }
 }
 
-- 
2.43.0


From c27a713c25d634cc636c80fadad812549ceb806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 112/183] fix: methsearch rejected methods whose lead head was
 to be avoided, and missed avoided rows in later leads or with several extents

---
 apps/methsearch/search.cpp | 46 +++++++++++++-------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index b13bc47..5d8a378 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -175,9 +175,6 @@ void searcher::reset()
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
   {
     prv.reset( new prover(args.n_extents) );
-    for ( set<row>::const_iterator 
-            i=args.avoid_rows.begin(), e=args.avoid_rows.end(); i != e; ++i )
-      prv->add_row(*i);
     prv->add_row(r);
     assert( prv->truth() );
     maintain_r = true;
@@ -367,39 +364,29 @@ bool searcher::try_with_limited_le( const change& ch )
 }
 
 class prover2 {
-private:
-  void init() {
-    for ( set<row>::const_iterator 
-            i=args.avoid_rows.begin(), e=args.avoid_rows.end(); i != e; ++i )
-      p.add_row(*i);
-    assert( p.truth() );
-  }
-
 public:
   prover2( arguments const& args ) 
-   : args(args), p(args.n_extents), r(args.start_row) { init(); }
+   : args(args), p(args.n_extents), r(args.start_row), avoided(false) {}
 
   prover2( arguments const& args, row const& r ) 
-   : args(args), p(args.n_extents), r(r) { init(); }
-
-  struct raw {};
-  prover2( arguments const& args, raw )
-    : args(args), p(args.n_extents), r(args.bells)
-  {}
+   : args(args), p(args.n_extents), r(r), avoided(false) {}
 
   bool prove( method::const_iterator i, method::const_iterator e ) {
-    for ( ; p.truth() && i != e; ++i ) {
-      p.add_row( args.pends.rcoset_label(r) );
+    for ( ; truth() && i != e; ++i ) {
+      row const label = args.pends.rcoset_label(r);
+      p.add_row(label);
+      if ( args.avoid_rows.find(label) != args.avoid_rows.end() )
+        avoided = true;
       r *= *i;
     }
-    return p.truth();
+    return truth();
   }
 
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
     if ( r2 != args.pends.rcoset_label(args.start_row) )
       p.add_row(r2);
-    return p.truth();
+    return truth();
   }
 
   bool prove_lh() { return prove_lh(r); }
@@ -409,11 +396,11 @@ public:
     row const r3 = args.pends.rcoset_label(r*hlc);
     if ( r2 != r3 ) 
       p.add_row(r2);
-    return p.truth();
+    return truth();
   }
     
 
-  bool truth() const { return p.truth(); }
+  bool truth() const { return p.truth() && !avoided; }
   bool is_course_head() const {
     return r == row(args.start_row * row(args.bells));
   }
@@ -423,6 +410,7 @@ private:
   arguments const& args;
   prover p;
   row r;
+  bool avoided;   // Have we had one of the rows to be avoided?
 };
 
 bool searcher::is_acceptable_method()
@@ -503,13 +491,14 @@ bool searcher::is_acceptable_method()
   // --- Falseness requirements ---
   // Plain methods cannot be false in the half-lead, and if symmetric
   // cannot be false in the plain course.  Therefore we only need this 
-  // test if (i) we have part ends; or (ii) we're not a symmetric plain 
-  // method.
+  // test if (i) we have part ends; (ii) we're not a symmetric plain 
+  // method; or (iii) there are rows to be avoided throughout the course.
   // As a further optimisation, we could (but don't) move symmetric 
   // into the following block by folding the actual lhs and les into the
   // part end group.
   if ( args.true_lead 
          && ( args.pends.size() > 1 
+              || args.true_course && args.avoid_rows.size()
               || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
@@ -519,8 +508,6 @@ bool searcher::is_acceptable_method()
 
       // This branch handles -Fc
       if ( !p.truth() ) {
-        if ( !args.true_course && args.n_extents == 1 )  // i.e. if -Fl
-          assert( p.truth() );
         return false;
       }
 
@@ -604,8 +591,7 @@ inline bool searcher::push_change( const change& ch )
            !args.true_lead && args.true_half_lead && m.size() >= lead_len/2 )) {
       if ( prv && !prv->add_row(r) )
         return false;
-      // Is this case still necessary?
-      else if ( !prv && args.avoid_rows.find(r) != args.avoid_rows.end() )
+      else if ( args.avoid_rows.find(r) != args.avoid_rows.end() )
         return false;
     }
 
-- 
2.43.0


From eba46823c01656be2a697c7ddfa32aa837281111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 113/183] fix: methsearch found principles without the
 rotational symmetry asked for

---
 apps/methsearch/search.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 5d8a378..2afcd11 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1172,8 +1172,9 @@ void searcher::new_midlead_change()
 
       // XXX ALLIANCE -- locate rotational symmetry point
       // Additional requirements for the rotational symmetry point:
-      if ( args.hunt_bells && args.skewsym && lead_len % 4 == 0 
-           && depth % (lead_len/2) == lead_len / 4 - args.hunt_bells % 2 &&
+      if ( args.skewsym && !args.floating_sym && lead_len % 4 == 0 
+           && depth % (lead_len/2) == lead_len / 4 
+                - ( args.hunt_bells && args.hunt_bells % 2 == 0 ? 0 : 1 ) &&
            ! try_quarterlead_change( ch ) )
         continue;
 
-- 
2.43.0


From 49c0e645e682660c9fad481c4b0014aaabc5d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 114/183] fix: methsearch aborted when asked for principles
 with symmetric sections

---
 apps/methsearch/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 2afcd11..0e4fc01 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -993,7 +993,8 @@ bool searcher::try_midlead_change( const change &ch )
     }
   
   // Are we more than half way through the current division? 
-  if ( args.sym_sects && !intersection && depth - div_start >= cur_div_len/2 )
+  if ( args.sym_sects && args.hunt_bells && !intersection 
+       && depth - div_start >= cur_div_len/2 )
     {
       int i = div_start + cur_div_len - 2 - (depth - div_start);
       assert( i < (int)m.size() && i >= 0 );
-- 
2.43.0


From 5c1fddcdd752c9617b7388e1f457509f3ce2d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 115/183] fix: methsearch missed long runs of blows in one
 place where symmetry determines the changes

---
 apps/methsearch/search.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 0e4fc01..562cd34 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -95,6 +95,7 @@ private:
   bool try_with_limited_le( const change& ch );
   bool try_floating_symmetry();
 
+  bool has_too_many_blows() const;
   bool is_acceptable_method();
   void output_method( method const& meth );
 
@@ -355,6 +356,11 @@ bool searcher::try_with_limited_le( const change& ch )
   
   m.push_back(ch);
 
+  if ( args.max_consec_blows && has_too_many_blows() ) {
+    m.back() = orig;
+    return false;
+  }
+
   // This used to call is_acceptable_method.  This was bad because
   // we don't want things like --start-at, --require, and the falseness
   // options to effect -E.  At least, I don't think we do.
@@ -413,8 +419,33 @@ private:
   bool avoided;   // Have we had one of the rows to be avoided?
 };
 
+// Are there too many consecutive blows in some place?  Those which extend 
+// from one lead into the next count too.
+bool searcher::has_too_many_blows() const
+{
+  const size_t len = m.size(), lead_end = (len + sym_offset - 1) % len;
+
+  for ( int i=0; i<bells; ++i ) {
+    int count(1);
+    for ( size_t j = lead_end + 1; j <= lead_end + 2*len; ++j ) {
+      const bool exempt = args.long_le_place && j % len == lead_end;
+      if ( !exempt && m[j % len].findplace(i) )
+        ++count;
+      else
+        count = 1;
+
+      if ( count > args.max_consec_blows && count > 1 )
+        return true;
+    }
+  }
+  return false;
+}
+
 bool searcher::is_acceptable_method()
 {
+  if ( args.max_consec_blows && has_too_many_blows() )
+    return false;
+
   if ( lexicographical_compare( m.begin(), m.end(), 
            args.startmeth.begin(), args.startmeth.end(),
            compare_changes ) )
-- 
2.43.0


From 4679eec29ac6b21b33f781509919bf710cececbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 116/183] fix: methsearch ignored --row-match for the first row
 of the lead

---
 apps/methsearch/search.cpp | 44 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 562cd34..308111d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -71,6 +71,7 @@ private:
   void filter( library const& );
   void general_recurse();
 
+  bool is_row_match( size_t n, const row& r );
   inline bool push_change( const change& ch);
   inline void pop_change( row const* r_old = NULL );
   inline void call_recurse( const change &ch );
@@ -611,6 +612,25 @@ bool searcher::is_acceptable_method()
   return true;
 }
 
+// Does the row R, the Nth in the lead, match what was required of it?
+bool searcher::is_row_match( size_t n, const row& r )
+{
+  if ( n >= args.row_matches.size() || !args.row_matches[n].bells() )
+    return true;
+
+  music& mus = const_cast<music&>( args.row_matches[n] );
+
+  if ( args.pends.size() <= 1 )
+    return mus.process_row(r);
+
+  bool matched = false;
+  for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
+         i != e; ++i)
+    if (mus.process_row(*i * r))
+      matched = true;
+  return matched;
+}
+
 inline bool searcher::push_change( const change& ch )
 {
   m.push_back( ch );
@@ -626,22 +646,8 @@ inline bool searcher::push_change( const change& ch )
         return false;
     }
 
-    if ( m.size() < args.row_matches.size() 
-         && args.row_matches[m.size()].bells() ) {
-      music& mus = const_cast<music&>( args.row_matches[m.size()] );
-
-      if (args.pends.size() > 1) {
-        bool matched = false;
-        for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
-               i != e; ++i)
-          if (mus.process_row(*i * r))
-            matched = true;
-        if (!matched)
-          return false;
-      }
-      else if (!mus.process_row(r))
-        return false;
-    }
+    if ( !is_row_match( m.size(), r ) )
+      return false;
   }
   if (m.length() == div_start + cur_div_len) {
     div_start += cur_div_len;
@@ -1378,6 +1384,12 @@ void searcher::general_recurse()
   const size_t  hlead_sym_pt =   lead_len/2 - 1 + sym_offset;
   const size_t tqlead_sym_pt = 3*lead_len/4 - 1 + sym_offset;
 
+  // The first row is never reached by push_change
+  if ( depth == 0 && args.row_matches.size() && 
+       !is_row_match( 0, args.pends.rcoset_label( args.start_row 
+                                                    * row(bells) ) ) )
+    return;
+
   // Found something
   if ( depth == size_t(lead_len) )
     {
-- 
2.43.0


From 713e53075b3d94bf9a93a5d6000af91274a2308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 117/183] fix: methsearch's -E option disregarded most of the
 other requirements

---
 apps/methsearch/search.cpp | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 308111d..39449ca 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -97,6 +97,7 @@ private:
   bool try_floating_symmetry();
 
   bool has_too_many_blows() const;
+  bool meets_requirements();
   bool is_acceptable_method();
   void output_method( method const& meth );
 
@@ -343,6 +344,13 @@ bool searcher::try_with_limited_le( const change& ch )
   // We don't want want the -F options to modify the behaviour of -E, 
   // so nothing here should test falseness, and so nothing here will test r.
 
+  const vector<change>& allowed = args.allowed_changes.at( lead_len-1 );
+  if ( find( allowed.begin(), allowed.end(), ch ) == allowed.end() )
+    return false;
+
+  if ( args.prefix.size() >= lead_len && args.prefix[lead_len-1] != ch )
+    return false;
+
   change orig( m.back() );
   m.pop_back();
 
@@ -357,15 +365,11 @@ bool searcher::try_with_limited_le( const change& ch )
   
   m.push_back(ch);
 
-  if ( args.max_consec_blows && has_too_many_blows() ) {
-    m.back() = orig;
-    return false;
-  }
-
   // This used to call is_acceptable_method.  This was bad because
   // we don't want things like --start-at, --require, and the falseness
   // options to effect -E.  At least, I don't think we do.
-  bool ok = is_acceptable_leadhead( m.lh() );
+  bool ok = meets_requirements() &&
+    is_row_match( lead_len, args.pends.rcoset_label( args.start_row * m.lh() ) );
   m.back() = orig;
   return ok;
 }
@@ -442,16 +446,13 @@ bool searcher::has_too_many_blows() const
   return false;
 }
 
-bool searcher::is_acceptable_method()
+// Does the method meet all the requirements, other than those concerning
+// falseness, --require and --start-at?
+bool searcher::meets_requirements()
 {
   if ( args.max_consec_blows && has_too_many_blows() )
     return false;
 
-  if ( lexicographical_compare( m.begin(), m.end(), 
-           args.startmeth.begin(), args.startmeth.end(),
-           compare_changes ) )
-    return false;
-
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
@@ -520,6 +521,19 @@ bool searcher::is_acceptable_method()
        args.only_unnamed && method_libraries::has_method(m) )
     return false;
 
+  return true;
+}
+
+bool searcher::is_acceptable_method()
+{
+  if ( lexicographical_compare( m.begin(), m.end(), 
+           args.startmeth.begin(), args.startmeth.end(),
+           compare_changes ) )
+    return false;
+
+  if ( !meets_requirements() )
+    return false;
+
   // --- Falseness requirements ---
   // Plain methods cannot be false in the half-lead, and if symmetric
   // cannot be false in the plain course.  Therefore we only need this 
@@ -594,10 +608,10 @@ bool searcher::is_acceptable_method()
 
   // --- Other expensive requirements ---
 
-  // Calls back to this function, so pretty expensive
   if ( args.prefer_limited_le && !is_limited_le( m.back() ) &&
        ( try_with_limited_le( change( bells, "1"  ) ) ||
-         try_with_limited_le( change( bells, "12" ) ) ) )
+         try_with_limited_le( change( bells, string("1") 
+                                        + bell( args.hunt_bells ).to_char() ) ) ) )
     return false;
 
   // Leave this one last as --requires does a fork and so is very expensive
-- 
2.43.0


From a6f346102866732dfa288138585ca304b6b81444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 118/183] fix: methsearch did not let a mask override --no-78s
 at the symmetry points

---
 apps/methsearch/search.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 39449ca..c9ac3d7 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -839,10 +839,6 @@ bool searcher::try_halflead_sym_change( const change &ch )
        && !is_limited_le( ch.reverse() ) )
     return false;
 
-  if ( (args.skewsym || args.doubsym) &&
-       args.no_78_pns && ch.findplace(1) )
-    return false;
-
   size_t stopoff = args.long_le_place 
     ? (lead_len+sym_offset-1) % lead_len : (size_t)-1;
   if ( args.sym && args.max_consec_blows
@@ -923,9 +919,6 @@ bool searcher::try_leadend_sym_change( const change &ch )
   if ( args.require_limited_le && !is_limited_le(ch) ) 
     return false;
 
-  if ( args.no_78_pns && ch.findplace(bells-2) )
-    return false;
-
   if ( args.sym && !args.long_le_place && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1 ) )
     return false;
-- 
2.43.0


From e3e18c56e72a9a340d4671c6bd0febeb995d2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 119/183] fix: methsearch missed methods with floating symmetry
 when consecutive blows were limited

---
 apps/methsearch/search.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index c9ac3d7..24fb829 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -841,7 +841,7 @@ bool searcher::try_halflead_sym_change( const change &ch )
 
   size_t stopoff = args.long_le_place 
     ? (lead_len+sym_offset-1) % lead_len : (size_t)-1;
-  if ( args.sym && args.max_consec_blows
+  if ( args.sym && !args.floating_sym && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1, stopoff ) )
     return false;
 
@@ -919,7 +919,8 @@ bool searcher::try_leadend_sym_change( const change &ch )
   if ( args.require_limited_le && !is_limited_le(ch) ) 
     return false;
 
-  if ( args.sym && !args.long_le_place && args.max_consec_blows
+  if ( args.sym && !args.floating_sym 
+       && !args.long_le_place && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1 ) )
     return false;
 
-- 
2.43.0


From cf798c44872bc50fffd731258c060947e9134876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 120/183] fix: methsearch proved the wrong lead head with -Fh
 when given a start row

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 24fb829..ca717ab 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -593,7 +593,7 @@ bool searcher::is_acceptable_method()
         if ( !p2.prove_lh() ) return false;
       }  
       else {
-        if ( !p.prove_lh(m.lh()) ) return false;
+        if ( !p.prove_lh( args.start_row * m.lh() ) ) return false;
       }
     }
 
-- 
2.43.0


From 42177cdf7907e934cdd7bb7c4e6e11548cc548b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:20 +0000
Subject: [PATCH 121/183] fix: methsearch --start-at lost its place in searches
 for symmetric methods, and skipped later ones

---
 apps/methsearch/search.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ca717ab..63d9fc9 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -119,7 +119,6 @@ private:
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
 
-  vector<change> startmeth;
   method filter_method;
   string filter_payload;
   size_t div_start;  // The index (into m) of the row of the division
@@ -142,9 +141,6 @@ searcher::searcher( arguments &args )
     args.orig_lead_len = args.lead_len;
 
   reset();
-
-  copy( args.startmeth.rbegin(), args.startmeth.rend(), 
-        back_inserter(startmeth) );
 }
 
 void searcher::init() {
@@ -1185,13 +1181,12 @@ void searcher::new_midlead_change()
                     random_number_generator );
   }
 
-  // If we're starting at a particular point (with --start), find out
-  // what that change is.
+  // If we're starting at a particular point (with --start-at), and have not
+  // got beyond it yet, find out what that change is.
   change first;
-  if ( startmeth.size() ) {
-    first = startmeth.back();
-    startmeth.pop_back();
-  }
+  if ( depth < args.startmeth.size() &&
+       equal( m.begin(), m.end(), args.startmeth.begin() ) )
+    first = args.startmeth[depth];
 
   for ( vector<change>::const_iterator 
           i( changes_to_try.begin() ), e( changes_to_try.end() ); 
-- 
2.43.0


From 7b2f8fafd24cadf4f81f968f4a338ad25430e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:38 +0000
Subject: [PATCH 122/183] fix: methsearch mixed up the alternatives in a mask,
 taking the work above the treble from one and below it from another

---
 apps/methsearch/mask.cpp | 42 ++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 6ed8ec8..b0971c2 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -323,9 +323,12 @@ void expand_block( vector< vector< change > >& block1,
   }
 }
 
+// WHOLE has the alternatives for those changes that were given whole, rather
+// than separately for above and below the treble.
 bool read_and_expand_blocks( arguments& args,
                              vector< vector<change> >& above, 
-                             vector< vector<change> >& below )
+                             vector< vector<change> >& below,
+                             vector< vector<change> >& whole )
 {
   // If lead_len is unspecified, we use length of two (to accommodate -w) 
   // and fix it up when reading this in the search algorithm.
@@ -335,9 +338,10 @@ bool read_and_expand_blocks( arguments& args,
   // Block1 is the section containing a star
   // Block2 are those sections after the section containing a star
   // 'b' blocks are below works for above/below sections
-  vector< vector<change> > &block0a = above, &block0b = below;
-  vector< vector<change> >  block1a,          block1b;
-  vector< vector<change> >  block2a,          block2b;
+  // 'w' blocks are the whole changes for other sections
+  vector< vector<change> > &block0a = above, &block0b = below, &block0w = whole;
+  vector< vector<change> >  block1a,          block1b,          block1w;
+  vector< vector<change> >  block2a,          block2b,          block2w;
 
   size_t star_index_a(0u),  star_index_b(0u);
   bool   star_sym_a(false), star_sym_b(false);
@@ -357,6 +361,7 @@ bool read_and_expand_blocks( arguments& args,
       shared_pointer<block> blka( read_block(args.bells, i, e) ), blkb;
       
       bool got_star(false); // Is block of unknown length?
+      bool is_split(false); // Is block an above and a below section?
       
       // Is block an above section?
       if ( i != e && *i == '/' ) {
@@ -365,6 +370,7 @@ bool read_and_expand_blocks( arguments& args,
                             "above and below sections" );
 
         ++i; // skip '/'
+        is_split = true;
         blkb = read_block(args.bells, i, e);
         
         if ( i != e && *i == '/' )
@@ -424,6 +430,16 @@ bool read_and_expand_blocks( arguments& args,
         copy( blkb->data.begin(), blkb->data.end(), 
               back_inserter( blockxb ) );
       }
+      {
+        vector< vector<change> > &blockxw
+          = got_star ? block1w : block1w.empty() ? block0w : block2w;
+
+        if ( is_split )
+          blockxw.insert( blockxw.end(), blka->data.size(), vector<change>() );
+        else
+          copy( blka->data.begin(), blka->data.end(), 
+                back_inserter( blockxw ) );
+      }
       
       if ( i != e ) {
         if ( *i != ',' ) throw place_notation::invalid(); 
@@ -443,6 +459,9 @@ bool read_and_expand_blocks( arguments& args,
   if ( block1a.size() && block1b.size() ) {
     // We have a section of unknown length
 
+    expand_block( block1w, star_sym_a, star_index_a, lead_len -
+                  block0a.size() - block1a.size() - block2a.size() );
+
     expand_block( block1a, star_sym_a, star_index_a, lead_len -
                   block0a.size() - block1a.size() - block2a.size() );
 
@@ -465,8 +484,10 @@ bool read_and_expand_blocks( arguments& args,
   args.allowed_changes.clear();
   copy( block1a.begin(), block1a.end(), back_inserter( block0a ) );
   copy( block1b.begin(), block1b.end(), back_inserter( block0b ) );
+  copy( block1w.begin(), block1w.end(), back_inserter( block0w ) );
   copy( block2a.begin(), block2a.end(), back_inserter( block0a ) );
   copy( block2b.begin(), block2b.end(), back_inserter( block0b ) );
+  copy( block2w.begin(), block2w.end(), back_inserter( block0w ) );
 
   return true;
 }
@@ -609,7 +630,7 @@ change merge_changes( const arguments& args,
 
 void merge_changes( const arguments& args, vector<change>& result,
                     const vector<change>& above, const vector<change>& below,
-                    int i )
+                    bool whole, int i )
 {
   result.reserve( above.size() * below.size() );
   pair< int, int > posn( get_posn2(args, i) );
@@ -641,6 +662,10 @@ void merge_changes( const arguments& args, vector<change>& result,
 
   for ( int ia=0, na=above.size(); ia < na; ++ia )
     for ( int ib=0, nb=below.size(); ib < nb; ++ib ) {
+      // Don't take part of one alternative and part of another
+      if ( whole && ia != ib )
+        continue;
+
       const change ch( merge_changes( args, above[ia], below[ib], posn ) );
       DEBUG( "Merging " << below[ib] << " and " << above[ia] << " gives "
                << ch );
@@ -795,9 +820,9 @@ void restrict_changes( arguments& args )
 
 bool parse_mask( arguments &args )
 {
-  vector< vector<change> > above, below;
+  vector< vector<change> > above, below, whole;
 
-  if ( !read_and_expand_blocks( args, above, below ) )
+  if ( !read_and_expand_blocks( args, above, below, whole ) )
     return false;
 
   const bool use_sym = args.mask != "*" && args.lead_len && !args.floating_sym;
@@ -835,7 +860,8 @@ bool parse_mask( arguments &args )
         if ( changesb.empty() ) 
           select_changes_below( args, changesb, i );
    
-        merge_changes( args, changes_to_try, changesa, changesb, i );
+        merge_changes( args, changes_to_try, changesa, changesb, 
+                       !whole[i].empty(), i );
       }
       else if (changes_to_try.empty()) { // principles
         if ( above[i].empty() )
-- 
2.43.0


From 6a0ce04ff6547bc0fb1c6ab839949f47ab9cf84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 123/183] fix: methsearch misjudged the cross-sections of
 treble dodging methods which are copied by symmetry, or with an even number
 of hunts

---
 apps/methsearch/search.cpp | 60 +++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 63d9fc9..8d16f03 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -75,7 +75,8 @@ private:
   inline bool push_change( const change& ch);
   inline void pop_change( row const* r_old = NULL );
   inline void call_recurse( const change &ch );
-  inline int get_posn() const;
+  inline int get_posn() const { return get_posn( m.length() ); }
+  inline int get_posn( size_t depth ) const;
   inline size_t calc_cur_div_len() const;
 
   inline bool is_cyclic_hl( const row& hl );
@@ -97,6 +98,7 @@ private:
   bool try_floating_symmetry();
 
   bool has_too_many_blows() const;
+  bool has_right_cross_sections() const;
   bool meets_requirements();
   bool is_acceptable_method();
   void output_method( method const& meth );
@@ -442,6 +444,45 @@ bool searcher::has_too_many_blows() const
   return false;
 }
 
+// Is the method of the class (surprise, treble bob, delight, etc.) wanted?
+// Most of those that are not are eliminated in try_midlead_change, but that
+// does not see the changes which are determined by symmetry.
+bool searcher::has_right_cross_sections() const
+{
+  if ( !args.hunt_bells )
+    return true;
+
+  int external = 0, count = 0;
+  for ( size_t i = div_len-1; i < m.size(); i += div_len ) {
+    if ( i == m.size()-1 || i == m.size()/2 - 1 ) continue;
+
+    const bool internal = m[i].internal();
+    const int posn = get_posn(i);
+    if ( args.surprise && !internal || args.treble_bob && internal ||
+         args.delight3 && ( posn == 3 && !internal || posn == 1 && internal ) ||
+         args.delight4 && ( posn == 1 && !internal || posn == 3 && internal ) )
+      return false;
+
+    ++count;
+    if ( !internal ) ++external;
+  }
+
+  if ( args.delight || args.exercise || 
+       args.strict_delight || args.strict_exercise ||
+       args.pas_alla_tria || args.pas_alla_tessera ) {
+    if ( external == 0 || external == count ) return false;
+
+    // The historical classes are only defined for palindromic methods.
+    if ( args.strict_delight   && external != 2 ||
+         args.exercise         && external  < 4 ||
+         args.strict_exercise  && external != 4 ||
+         args.pas_alla_tria    && external != 6 ||
+         args.pas_alla_tessera && external != 8 )
+      return false;
+  }
+  return true;
+}
+
 // Does the method meet all the requirements, other than those concerning
 // falseness, --require and --start-at?
 bool searcher::meets_requirements()
@@ -449,6 +490,9 @@ bool searcher::meets_requirements()
   if ( args.max_consec_blows && has_too_many_blows() )
     return false;
 
+  if ( !has_right_cross_sections() )
+    return false;
+
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
@@ -708,15 +752,13 @@ inline size_t searcher::calc_cur_div_len() const
 // 0 = treble in 1-2
 // 1 = treble in 2-3
 // 2 = treble in 3-4, ...
-inline int searcher::get_posn() const
+inline int searcher::get_posn( size_t depth ) const
 {
   // XXX ALLIANCE -- Whole function needs reworking
 
   assert( args.hunt_bells );
   assert( lead_len % 2 == 0 );
 
-  const size_t depth = m.length();
-
   // Reflect about the half-lead:
   size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
   
@@ -970,9 +1012,13 @@ bool searcher::try_midlead_change( const change &ch )
       // TODO: Pas-alla-tessera (and the others less so) can be sped up
       // by testing this at each division end.
       //
-      if ( args.delight || args.exercise ||
-           args.strict_delight || args.strict_exercise ||
-           args.pas_alla_tria || args.pas_alla_tessera )
+      // When there is an even number of hunts, the symmetry points are 
+      // elsewhere, and this is left to has_right_cross_sections.
+      //
+      if ( args.hunt_bells % 2 == 1 && 
+           ( args.delight || args.exercise ||
+             args.strict_delight || args.strict_exercise ||
+             args.pas_alla_tria || args.pas_alla_tessera ) )
       {
         const int f = args.treble_front, b = args.treble_back, p = posn;
 
-- 
2.43.0


From cda343d31b3e8ef16d5b75de3ce09ef61d181bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 124/183] fix: methsearch proved too little when null changes
 were allowed, and too much of a division when several extents were wanted

---
 apps/methsearch/search.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 8d16f03..b253ccd 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -170,9 +170,9 @@ void searcher::reset()
   if (maintain_r) 
     r = args.pends.rcoset_label( args.start_row );
 
-  if ( args.true_lead && ( !args.sym ||  
+  if ( args.true_lead && ( !args.sym ||  !args.true_trivial ||
          args.treble_dodges && !args.same_place_parity )  ||
-       args.true_half_lead && ( args.pends.size() > 1 ||
+       args.true_half_lead && ( args.pends.size() > 1 || !args.true_trivial ||
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
   {
     prv.reset( new prover(args.n_extents) );
@@ -578,13 +578,15 @@ bool searcher::is_acceptable_method()
   // Plain methods cannot be false in the half-lead, and if symmetric
   // cannot be false in the plain course.  Therefore we only need this 
   // test if (i) we have part ends; (ii) we're not a symmetric plain 
-  // method; or (iii) there are rows to be avoided throughout the course.
+  // method; (iii) there are rows to be avoided throughout the course; or
+  // (iv) the change in which every bell stays in place is allowed.
   // As a further optimisation, we could (but don't) move symmetric 
   // into the following block by folding the actual lhs and les into the
   // part end group.
   if ( args.true_lead 
          && ( args.pends.size() > 1 
               || args.true_course && args.avoid_rows.size()
+              || !args.true_trivial
               || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
@@ -607,13 +609,16 @@ bool searcher::is_acceptable_method()
 
   // Although treble-dodging methods with more than one dodge can run
   // false within a half lead, this is handled by the is_division_false
-  // function.  We only care if (i) we have part ends; or (ii) we're 
-  // looking for hunt-dominated method.  And as this test is a subset
-  // of the previous one, we don't want to do them both.
+  // function.  We only care if (i) we have part ends; (ii) we're looking for
+  // hunt-dominated method; (iii) the change in which every bell stays in 
+  // place is allowed; or (iv) we want several extents, which that function 
+  // does not handle.  And as this test is a subset of the previous one, we 
+  // don't want to do them both.
   // If we adopt the above further optimisation, we need to also test
   // -Fl/-Fc for symmetric methods.
   else if ( args.true_half_lead 
-            && ( args.pends.size() > 1 || args.hunt_bells == 0 )  )
+            && ( args.pends.size() > 1 || args.hunt_bells == 0
+                 || !args.true_trivial || args.n_extents > 1 )  )
     {
       prover2 p(args);
       if ( !p.prove(m.begin(), m.begin()+m.size()/2) )
@@ -1125,7 +1130,8 @@ cerr << "SOUP: " << ch << " at depth " << m.length() << endl;
   // by the default -Fn.)
   // This test doesn't effect the -E handling noted above as if the base
   // method passes this, so will the variant with a 12 or 1N lh.
-  if ( args.true_half_lead && cur_div_len > 4 && !intersection
+  if ( args.true_half_lead && args.n_extents == 1 
+       && cur_div_len > 4 && !intersection
        && is_division_false( m, ch, div_start, cur_div_len ) )
     return false;
   
-- 
2.43.0


From 508be49c4cb33d8ada4747dc127cebf2f34d6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 125/183] fix: methsearch --invert-filter omitted methods whose
 leads are of the wrong length

---
 apps/methsearch/search.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index b253ccd..d844712 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -212,12 +212,15 @@ void searcher::filter( library const& in )
       init();
     }
     
+    bool right_length = true;
 
     try {
       filter_method = i->meth();
       if (args.lead_len && filter_method.size() != args.lead_len)
+        right_length = false;
+      if (!right_length && !args.invert_filter)
         continue;
-      if ( !args.orig_lead_len ) {
+      if ( !args.orig_lead_len && right_length ) {
         lead_len = args.lead_len = filter_method.length();
         if ( !parse_mask(args) ) 
           continue;
@@ -241,7 +244,7 @@ void searcher::filter( library const& in )
     do_status( filter_method );
 
     RINGING_ULLONG old_search_count = search_count;
-    general_recurse();
+    if ( right_length ) general_recurse();
     assert( m.length() == 0 );
     m = method();  // Reset the number of bells 
 
-- 
2.43.0


From bdaa6a996a95d9435c83ad8282219f466438e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:32 +0000
Subject: [PATCH 126/183] fix: methsearch --long-le-place did not exempt the
 right change when there is an even number of hunts

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index d844712..5ca8767 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -937,7 +937,7 @@ bool searcher::try_leadend_change( const change &ch )
           if (args.long_le_place && !sym_offset) count=1; 
 
           int end = m.length();
-          if (args.long_le_place && sym_offset) end = sym_offset;
+          if (args.long_le_place && sym_offset) end = sym_offset - 1;
 
           for ( int offset = 0; 
                 offset < end && count <= args.max_consec_blows; 
-- 
2.43.0


From 7990e9dae7d2cf8fd321486ecd0574f88ba3130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:32 +0000
Subject: [PATCH 127/183] fix: methsearch found principles which repeat a
 change where one half of the lead, or one lead, meets the next

---
 apps/methsearch/search.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 5ca8767..e5a45d9 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -496,6 +496,12 @@ bool searcher::meets_requirements()
   if ( !has_right_cross_sections() )
     return false;
 
+  // Changes that are determined by symmetry are not tested for -Fn elsewhere
+  if ( args.true_trivial && m.size() > 1 )
+    for ( size_t i=0; i < m.size(); ++i )
+      if ( m[i] == m[ (i+1) % m.size() ] )
+        return false;
+
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
-- 
2.43.0


From 00884dc861c5abd666f27a960cd5475993458a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 128/183] fix: methsearch took the lead-end change for part of
 a division when the treble dodges twice

---
 apps/methsearch/search.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e5a45d9..1317792 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -774,12 +774,13 @@ inline int searcher::get_posn( size_t depth ) const
   assert( lead_len % 2 == 0 );
 
   // Reflect about the half-lead:
-  size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
+  // (This gives -1 for the lead-end change, which is also between divisions.)
+  const int posn = depth >= lead_len/2 ? int(lead_len - depth) - 2 : depth;
   
-  if ( posn % div_len == div_len - 1 )
-    return args.treble_front-1 + posn / div_len * 2 + 1;
+  if ( (posn + 1) % int(div_len) == 0 )
+    return args.treble_front-1 + posn / int(div_len) * 2 + 1;
   else
-    return args.treble_front-1 + posn / div_len * 2;
+    return args.treble_front-1 + posn / int(div_len) * 2;
 }
 
 inline bool searcher::is_cyclic_hl( const row& hl )
-- 
2.43.0


From 9cdd32540f0558309209801a12a7a8d3c6a2dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 129/183] fix: methsearch did not apply --parity-hack to
 changes determined by symmetry

---
 apps/methsearch/search.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 1317792..6338d41 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -496,6 +496,20 @@ bool searcher::meets_requirements()
   if ( !has_right_cross_sections() )
     return false;
 
+  // Nor are changes that are determined by symmetry tested elsewhere for
+  // equal numbers of rows of each parity.
+  if ( args.hunt_bells && args.same_place_parity )
+    for ( size_t d=0; d < m.size(); d += div_len ) {
+      size_t even[2] = { 1, 0 };
+      int sign = +1;
+      for ( size_t i=0; i < div_len-1; ++i ) {
+        sign *= m[d+i].sign();
+        if ( sign == +1 ) ++even[ (i+1) % 2 ];
+      }
+      if ( even[0] * 4 != div_len || even[1] * 4 != div_len )
+        return false;
+    }
+
   // Changes that are determined by symmetry are not tested for -Fn elsewhere
   if ( args.true_trivial && m.size() > 1 )
     for ( size_t i=0; i < m.size(); ++i )
-- 
2.43.0


From 66ce511dc30724fe30f4bb4a7375285d24a21711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 130/183] fix: methsearch -E mistook the lead-end change for
 the second change of a division

---
 apps/methsearch/search.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 6338d41..665e0ee 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -357,8 +357,16 @@ bool searcher::try_with_limited_le( const change& ch )
 
   assert( m.length() == size_t(lead_len-1) );
 
-  if ( ! try_midlead_change(ch) || ! try_leadend_change(ch) ||
-       args.hunt_bells % 2 == 1 && ! try_leadend_sym_change(ch) )
+  // The lead-end change is part of the last division
+  const size_t old_div_start = div_start;
+  if ( div_start > m.length() )
+    div_start -= cur_div_len;
+
+  const bool allowed_le = try_midlead_change(ch) && try_leadend_change(ch) &&
+    ( args.hunt_bells % 2 == 0 || try_leadend_sym_change(ch) );
+  div_start = old_div_start;
+
+  if ( !allowed_le )
     {
       m.push_back(orig);
       return false;
-- 
2.43.0


From 504fd9dbdc35d661684d758511eb5b84e8cf93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:08 +0000
Subject: [PATCH 131/183] fix: methsearch did not prove plain methods with
 floating symmetry

---
 apps/methsearch/search.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 665e0ee..7bf6f5f 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -170,7 +170,8 @@ void searcher::reset()
   if (maintain_r) 
     r = args.pends.rcoset_label( args.start_row );
 
-  if ( args.true_lead && ( !args.sym ||  !args.true_trivial ||
+  if ( args.true_lead && ( !args.sym || args.floating_sym || 
+         !args.true_trivial ||
          args.treble_dodges && !args.same_place_parity )  ||
        args.true_half_lead && ( args.pends.size() > 1 || !args.true_trivial ||
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
@@ -609,7 +610,8 @@ bool searcher::is_acceptable_method()
   // Plain methods cannot be false in the half-lead, and if symmetric
   // cannot be false in the plain course.  Therefore we only need this 
   // test if (i) we have part ends; (ii) we're not a symmetric plain 
-  // method; (iii) there are rows to be avoided throughout the course; or
+  // method, with the symmetry in the usual place; 
+  // (iii) there are rows to be avoided throughout the course; or
   // (iv) the change in which every bell stays in place is allowed.
   // As a further optimisation, we could (but don't) move symmetric 
   // into the following block by folding the actual lhs and les into the
@@ -618,7 +620,8 @@ bool searcher::is_acceptable_method()
          && ( args.pends.size() > 1 
               || args.true_course && args.avoid_rows.size()
               || !args.true_trivial
-              || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
+              || !( args.sym && !args.floating_sym 
+                    && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
       while ( p.prove(m.begin(), m.end()) &&
-- 
2.43.0


From a03c394d52543a69af12686c6bba800cd2cc25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 132/183] fix: methsearch expressions rejected variables with
 two numbers

---
 apps/methsearch/expression.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index c625686..5af084b 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -334,7 +334,8 @@ public:
     if ( iter != begin )
       num_opt = atoi( string( begin, iter ).c_str() );
 
-    if ( *iter == ',' ) {
+    if ( iter != end && *iter == ',' ) {
+      ++iter;
       string::const_iterator iter2(iter);
       while ( iter != end && isdigit(*iter) ) ++iter;
       if ( iter != iter2 )
@@ -861,6 +862,9 @@ private:
       string::const_iterator j = i;
       if ( *j != '$' ) return failed; ++j;
       while ( j < e && isdigit(*j) ) ++j;
+      if ( j < e && *j == ',' ) {
+        ++j; while ( j < e && isdigit(*j) ) ++j;
+      }
       if ( j == e ) return more; // Or fail?
       // $N* is magic:
       if ( !isalpha(*j) && *j != '*' && *j != '#' && *j != '?' ) 
-- 
2.43.0


From 200f95826c1bcc7775717273f07ceb7af3cfb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 133/183] fix: methsearch $P gave a path for a bell which is
 not there

---
 apps/methsearch/output.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index f118573..a4fadd1 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -277,6 +277,10 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  break;
 
 	case 'P': {
+	  if ( num_opts.first < 1 || num_opts.first > m.bells() ) {
+	    os << expr_error_string;
+	    break;
+	  }
 	  bell b(num_opts.first-1); os << b;
 	  for ( method::const_iterator i( m.begin() ), e( m.end() ); 
 		i != e; ++i ) os << (b *= *i);
-- 
2.43.0


From d1c735b8d3bee313e9ae3d987f5c2e4d654fd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 134/183] fix: methsearch terminated on place notation beyond
 the end of a lead

---
 apps/methsearch/output.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index a4fadd1..d55079d 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -139,13 +139,13 @@ static string format_pn( const method& m, pair<int,int> const& nums,
                          int fmt_opts ) {
   if (nums.first) {
     if ( nums.first > m.size() || nums.first <= 0 ) 
-      throw runtime_error( "Place notation offset out of range" );
+      return expr_error_string;
     method::const_iterator i( m.begin() + nums.first - 1 );
 
     vector<change> ch;
     if (nums.second) {
       if ( nums.second > m.size() || nums.second < nums.first ) 
-        throw runtime_error( "Place notation offset out of range" );
+        return expr_error_string;
       method::const_iterator e( m.begin() + nums.second );
 
       ch.assign(i, e);
-- 
2.43.0


From 832e28d8e4b0a60cff1ff3c26746f85d96d305ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 135/183] fix: methsearch read beyond the end of a method for
 $r

---
 apps/methsearch/output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index d55079d..75da5fb 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -202,12 +202,14 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  // TODO:  Should we cache all rows at same time?
 	  row r( m.bells() );
 	  int n( num_opts.first );
+	  if ( n > m.size() ) {
+	    os << expr_error_string;
+	    break;
+	  }
 	  for ( method::const_iterator 
 		  i( m.begin() ), e( m.begin() + num_opts.first );
 		n && i != e; ++i, --n ) 
 	    r *= *i;
-	  if ( n )
-	    throw runtime_error( "Format specifies row after end of method" );
 	  os << r;
 	} break;
 
-- 
2.43.0


From 576d7d96c3c54e70c3b87ee61da14cd994f8a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 136/183] fix: methsearch terminated on $O when the tenors do
 not course

---
 apps/methsearch/output.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index 75da5fb..34bb2d1 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -289,7 +289,12 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	} break;
 
 	case 'O': 
-	  os << tenors_together_coursing_order(m);
+	  try {
+	    os << tenors_together_coursing_order(m);
+	  } catch ( runtime_error const& ) {
+	    // The tenors never course
+	    os << expr_error_string;
+	  }
 	  break;
 
         case 's':
-- 
2.43.0


From e4c5463e6d525664f88464ebf3c2cb5e4be177a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 137/183] fix: methsearch terminated on suppress or abort in -H

---
 apps/methsearch/format.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 7f57fda..e9538b8 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -179,6 +179,10 @@ public:
 
   void print( ostream &os, RINGING_ULLONG count ) const;
 
+  // Evaluate any expressions now.  A suppress or abort has to be dealt
+  // with when the method is found, and not while sorting the entries.
+  void evaluate();
+
   RINGING_FAKE_DEFAULT_CONSTRUCTOR( histogram_entry )
 
 private:
@@ -187,6 +191,7 @@ private:
   const format_string &f;
 
   method_properties props;
+  vector<string> exprs;
 };
 
 bool histogram_entry::cmp::operator()( const histogram_entry &x, 
@@ -194,6 +199,7 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
 {
   assert( &x.f == &y.f );
 
+  size_t n(0);
   for ( vector< pair< pair<int,int>, string> >::const_iterator 
           i( x.f.vars.begin() ), e( x.f.vars.end() );  i != e;  ++i )
     {
@@ -207,10 +213,9 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
       string xval, yval;
 
       if ( i->second == "*" ) {
-        // TODO: We should cache these in case they contain lengthy 
-        // command invocations and/or non-deterministic output
-        xval = expression_cache::evaluate(i->first.first, x.props);
-        yval = expression_cache::evaluate(i->first.first, y.props);
+        xval = x.exprs.at(n);
+        yval = y.exprs.at(n);
+        ++n;
       }
       else {
         xval = x.props.get_property( i->first, i->second );
@@ -233,6 +238,14 @@ histogram_entry::histogram_entry( const format_string &f,
 {
 }
 
+void histogram_entry::evaluate()
+{
+  for ( vector< pair< pair<int,int>, string> >::const_iterator 
+          i( f.vars.begin() ), e( f.vars.end() );  i != e;  ++i )
+    if ( i->second == "*" )
+      exprs.push_back( expression_cache::evaluate(i->first.first, props) );
+}
+
 
 
 void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
@@ -309,7 +322,20 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
 
 void format_string::add_method_to_stats( const method_properties &props ) const
 {
-  statistics::add_entry( histogram_entry( *this, props ) );
+  histogram_entry entry( *this, props );
+
+  try
+    {
+      entry.evaluate();
+    }
+  catch ( const script_exception& sc )
+    {
+      if ( sc.type() == script_exception::abort_search )
+        throw exit_exception();
+      return;
+    }
+
+  statistics::add_entry( entry );
 }
 
 RINGING_START_ANON_NAMESPACE
-- 
2.43.0


From 76995e74ac9e7d26068d6fd57ee27013c557700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 138/183] fix: methsearch printed part of a method on abort

---
 apps/methsearch/format.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index e9538b8..d42ccb0 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -308,7 +308,6 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
           return;
 
         case script_exception::abort_search:
-          os2 << string(os) << flush;
           throw exit_exception();
           
         default:
-- 
2.43.0


From 43e06502336738335a3ed420b0f993bc58418cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 139/183] fix: methsearch arithmetic crashed or overflowed on
 extreme values

---
 apps/methsearch/expression.cpp | 56 +++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 5af084b..750bc9f 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -40,6 +40,7 @@
 #else
 #include <vector>
 #include <typeinfo> // for bad_cast
+#include <limits>
 #include <stdexcept>
 #include <functional>
 #endif
@@ -76,6 +77,11 @@ public:
   division_by_zero() : argument_error("Division by zero") {}
 };
 
+class integer_overflow : public argument_error {
+public:
+  integer_overflow() : argument_error("Integer overflow") {}
+};
+
 #if RINGING_DEBUG_FILE
 template <class It>
 class output_range_t {
@@ -515,14 +521,55 @@ expression::parser::parser()
 
 RINGING_START_ANON_NAMESPACE
 
+template <class T> 
+struct safe_plus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if ( y > 0 ? x > numeric_limits<T>::max() - y 
+               : x < numeric_limits<T>::min() - y )
+      throw integer_overflow();
+    return x+y;
+  }
+};
+
+template <class T> 
+struct safe_minus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if ( y < 0 ? x > numeric_limits<T>::max() + y 
+               : x < numeric_limits<T>::min() + y )
+      throw integer_overflow();
+    return x-y;
+  }
+};
+
+template <class T> 
+struct safe_multiplies : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    T const mx = numeric_limits<T>::max(), mn = numeric_limits<T>::min();
+    if ( x > 0 ? ( y > 0 ? x > mx / y : y < mn / x )
+               : ( y > 0 ? x < mn / y : x != 0 && y < mx / x ) )
+      throw integer_overflow();
+    return x*y;
+  }
+};
+
 template <class T> 
 struct safe_divides : binary_function<T,T,T> {
   T operator() (const T& x, const T& y) const {
     if (y == T()) throw division_by_zero();
+    if (y == -1) return safe_minus<T>()( T(), x );
     return x/y;
   }
 };
 
+template <class T> 
+struct safe_modulus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if (y == T()) throw division_by_zero();
+    if (y == -1) return T();
+    return x%y;
+  }
+};
+
 RINGING_END_ANON_NAMESPACE
 
 shared_pointer<expression::node> 
@@ -556,11 +603,11 @@ expression::parser::split_expr( vector<token>::const_iterator first,
       return ptr_t	      			\
 	( new i_binary_i_node< tmpl<expression::integer_type> >(arg1, arg2) )
 
-      CASE( plus,       RINGING_PREFIX_STD plus          );
-      CASE( minus,      RINGING_PREFIX_STD minus         );
-      CASE( times,      RINGING_PREFIX_STD multiplies    );
+      CASE( plus,                          safe_plus     );
+      CASE( minus,                         safe_minus    );
+      CASE( times,                         safe_multiplies );
       CASE( divide,                        safe_divides  );
-      CASE( modulo,     RINGING_PREFIX_STD modulus       );
+      CASE( modulo,                        safe_modulus  );
       CASE( iless,      RINGING_PREFIX_STD less          );
       CASE( igreater,   RINGING_PREFIX_STD greater       );
       CASE( ilesseq,    RINGING_PREFIX_STD less_equal    );
@@ -919,6 +966,7 @@ expression::expression( const string& str )
 
 #define RINGING_CATCH_EXPRESSION_ERROR( retval )           \
   catch ( division_by_zero const& ) { return (retval); }   \
+  catch ( integer_overflow const& ) { return (retval); }   \
   catch ( bad_lexical_cast const& ) { return (retval); }   \
   catch ( bell::invalid    const& ) { return (retval); }   \
   catch ( row::invalid     const& ) { return (retval); }   \
-- 
2.43.0


From 5e2cffc7fec11f009f37017a431660d88141c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 140/183] fix: methsearch doubled an escaped $ in an expression

---
 apps/methsearch/format.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index d42ccb0..5ba89b5 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -526,7 +526,12 @@ format_string::format_string( const string &infmt,
       // $[ options are converted into $N* options by the ']' 
       // handling code. 
       //
-      if (*iter != '[' && *iter != '(') {
+      if ( in_expr && ( *iter == '$' || *iter == '%' || *iter == ')' ) ) {
+        // In an expression this is an ordinary character of a string,
+        // as its value will not be expanded again.
+        *outfmts.top() << *iter;
+      }
+      else if (*iter != '[' && *iter != '(') {
         // Normalise to '$' so later code can ignore '%'.
         *outfmts.top() << '$';
           
@@ -557,7 +562,7 @@ format_string::format_string( const string &infmt,
         case 't': *outfmts.top() << '\t';  break;
         case 'v': *outfmts.top() << '\v';  break;
         // Escape '$' from the next stage
-        case '$': *outfmts.top() << "$$";  break;
+        case '$': *outfmts.top() << (in_expr ? "$" : "$$");  break;
         case 'x': {
           unsigned char value = 0x00;
           value += parse_xdigit(*++iter) * 0x10;
-- 
2.43.0


From 91e17be06a473aae95af47403ef653d263b19308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 141/183] fix: methsearch expanded a variable after \x24

---
 apps/methsearch/format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 5ba89b5..e0118d7 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -567,6 +567,8 @@ format_string::format_string( const string &infmt,
           unsigned char value = 0x00;
           value += parse_xdigit(*++iter) * 0x10;
           value += parse_xdigit(*++iter);
+          // As above, a '$' needs escaping from the next stage
+          if ( value == '$' && !in_expr ) *outfmts.top() << '$';
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
-- 
2.43.0


From e98065034d91a5e06351eedab7ea6ddb0ef4d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 142/183] fix: methsearch crashed on unmatched brackets in a
 format

---
 apps/methsearch/format.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index e0118d7..0ae834f 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -608,13 +608,13 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
     }
     else if ( *iter == ')' && in_expr ) {
-      if ( parens.top() != '(' )
+      if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
     else if ( *iter == ']' && in_expr ) {
-      if ( parens.top() != '[' )
+      if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
       string expr( *outfmts.top() );
@@ -645,6 +645,13 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
   }
 
+  if ( !parens.empty() )
+    throw argument_error( parens.top() == '`' 
+                          ? "Unmatched $( in format" 
+                          : parens.top() == '[' 
+                          ? "Unmatched $[ in format" 
+                          : "Unmatched parenthesis in expression" );
+
   assert( type == require_type ? in_expr : !in_expr );
 
   if ( line_break )
-- 
2.43.0


From 605e9355e3bed7518de40fcfe12824d4e36a8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 143/183] fix: methsearch counted a method again for each width
 of $#

---
 apps/methsearch/output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index 34bb2d1..9e6a6cf 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -76,7 +76,7 @@ class method_properties::impl2 : public library_entry::impl
 {
 public:
   explicit impl2( const method& m, const string& payload )
-    : m(m), payload(payload), named(false) {}
+    : m(m), payload(payload), named(false), number(0) {}
 
   string get_property( pair<int,int> const& num_opts, 
                        const string& name ) const;
@@ -100,6 +100,7 @@ private:
   mutable method m;
   const string payload;
   mutable bool named; // Have we looked up the name; not whether it is named
+  mutable RINGING_ULLONG number; // The value of $#
   mutable map< pair< pair<int,int>, string >, string > cache;
 };
 
@@ -303,7 +304,8 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 
 	case '#': {
 	  static RINGING_ULLONG n=0;
-	  os << setw(num_opts.first) << ++n;
+	  if ( !number ) number = ++n;
+	  os << setw(num_opts.first) << number;
 	} break;
  
         case 'i': {
-- 
2.43.0


From 5ed87ae5a59823b0d97981dc0578a2543c9b9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 144/183] fix: methsearch did not always number suppressed
 methods

---
 apps/methsearch/format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 0ae834f..c367813 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -103,6 +103,8 @@ public:
 private:
   virtual void append( library_entry const& entry ) {
     method_properties props( entry );
+    // Even if the method gets suppressed, it is assigned a number
+    props.get_property( make_pair(0,0), "#" );
     fs.print_method( props, (os ? *os : cout) );
   }
 
-- 
2.43.0


From c4da8b97353ad34eaa4ed363ce0ce166c62924a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 145/183] fix: methsearch music in leads and half-leads had the
 strokes swapped

---
 apps/methsearch/music.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b5d1780..92f3daf 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -196,6 +196,7 @@ int musical_analysis::analyse( const method &m )
   for ( musv_t::iterator mi=musv.begin(), me=musv.end(); mi!=me; ++mi)
     {
       vector< row > rows;
+      size_t first = 0; // How far into the lead rows[0] is
       row r = mi->first.first; // Set to the course head
 
       switch ( mi->first.second ) {
@@ -203,6 +204,7 @@ int musical_analysis::analyse( const method &m )
           do 
             transform( m.begin(), m.end(), back_inserter(rows), permute(r) );
           while ( r != mi->first.first );
+          first = 1;
           break;
 
         case analyser::lead:
@@ -218,24 +220,28 @@ int musical_analysis::analyse( const method &m )
         case analyser::half_lead_2:
           transform( m.begin() + m.size()/2, m.end(),
                      back_inserter(rows), post_permute(r) );
+          first = m.size()/2;
           break;
 
         case analyser::half_lead_r:
 	  transform( m.rbegin() + m.size()/2 + 1, m.rend(),
                      back_inserter(rows), post_permute(r) );
           rows.push_back(r);
+          first = m.size() - m.size()/2 - 1;
           break;
 
         case analyser::half_lead_2r:
           transform( m.rbegin() + 1, m.rbegin() + m.size()/2 + 1,
                      back_inserter(rows), post_permute(r) );
+          first = m.size() - 1;
           break;
 
         default:
           assert(false);
       }
 
-      mi->second.process_rows( rows.begin(), rows.end() );  
+      // The lead head is a backstroke
+      mi->second.process_rows( rows.begin(), rows.end(), first % 2 == 0 );  
       score += mi->second.get_score();
     }
 
-- 
2.43.0


From ee8abb9072ab1b44b5a5df6875a0b0f45b7d1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:57 +0000
Subject: [PATCH 146/183] fix: methsearch ran out of memory scoring music
 without -b

---
 apps/methsearch/music.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index 92f3daf..97d1e23 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -31,6 +31,7 @@
 #include <ringing/row.h>
 #include <ringing/method.h>
 #include <ringing/music.h>
+#include <ringing/pointers.h>
 #include <ringing/streamutils.h>
 
 
@@ -65,7 +66,12 @@ public:
  ~analyser() {}
     
   static analyser &instance( int bells ) 
-  { static analyser tmp( bells ); return tmp; }
+  { 
+    static map< int, shared_pointer<analyser> > tmp;
+    shared_pointer<analyser> &p = tmp[bells];
+    if (!p) p.reset( new analyser(bells) );
+    return *p;
+  }
 
   friend class patterns;
     
@@ -250,6 +256,6 @@ int musical_analysis::analyse( const method &m )
 
 void musical_analysis::force_init( int bells )
 {
-  // Going into this function initialises the static there.
-  analyser::instance( bells );
+  // When reading methods without -b, the number of bells is not yet known.
+  if (bells) analyser::instance( bells );
 }
-- 
2.43.0


From 137f3ea43d63b001cfef167f0ea3444830d4dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:52 +0000
Subject: [PATCH 147/183] fix: methsearch --invert-filter left out the name of
 untitled methods

---
 apps/methsearch/search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 7bf6f5f..b02c77d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -254,7 +254,9 @@ void searcher::filter( library const& in )
               search_count == old_search_count + 1 );
       if ( old_search_count == search_count ) {
         ++search_count;
-        output_method( filter_method );
+        // As in a search, the method is untitled unless found in a library.
+        vector<change> const& changes = filter_method;
+        output_method( method( changes ) );
       } 
       else --search_count;
     }
-- 
2.43.0


From 76275ee0a89ae891e31e6d259313569b615888ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 148/183] fix: gsiril evaluated 10 - 3 - 2 as 10 - (3 - 2)

---
 apps/gsiril/parser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 3414319..9b43c6e 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -817,7 +817,7 @@ msparser::make_expr( vector< token >::const_iterator first,
   // Replacement operators come next.  These use &, << and >> which in C-like
   // languages would be lower precedent than comparison operators.  That's 
   // really a bug in C due to its legacy from B, and we can fix it here.
-  if ( find( first, last, tok_types::merge, split ) ) {
+  if ( find( first, last, tok_types::merge, split, find_last ) ) {
     check_bin_op( first, split, last, "&" );
     return expression( new merge_node( make_expr( first, split ),
                                        make_expr( split+1, last ) ) );
@@ -835,11 +835,13 @@ msparser::make_expr( vector< token >::const_iterator first,
           ? replacement_node::end : replacement_node::begin ) );
   }
 
-  // Addition operators are next
+  // Addition operators are next.  They, like the replacement operators
+  // above and the multiplication operators below, are left associative, 
+  // so the last one is applied last.
   vector<tok_types::enum_t> addops;
   addops.push_back( tok_types::plus );
   addops.push_back( tok_types::minus );
-  if ( find_one_of( first, last, addops, split ) ) {
+  if ( find_one_of( first, last, addops, split, find_last ) ) {
     if ( split->type() == tok_types::plus ) {
       check_bin_op( first, split, last, "+" );
       return expression( new add_node( make_expr( first, split ),
@@ -857,7 +859,7 @@ msparser::make_expr( vector< token >::const_iterator first,
   multops.push_back( tok_types::append );
   multops.push_back( tok_types::divide );
   multops.push_back( tok_types::modulo );
-  if ( find_one_of( first, last, multops, split ) ) {
+  if ( find_one_of( first, last, multops, split, find_last ) ) {
     switch ( split->type() ) {
       case tok_types::modulo:
         check_bin_op( first, split, last, "%" );
-- 
2.43.0


From b75f403bfd13706ccfa1b7f45839abbdc2e2e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 149/183] fix: gsiril arithmetic crashed on division by zero
 and on overflow

---
 apps/gsiril/expression.cpp | 46 +++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index b6e4236..19440aa 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -23,6 +23,7 @@
 #endif
 
 #include <iterator>
+#include <limits>
 
 #include "expression.h"
 #include "proof_context.h"
@@ -802,10 +803,47 @@ void integer_node::debug_print( ostream &os ) const
   os << value;
 }
 
+static RINGING_LLONG check_overflow( bool overflow, RINGING_LLONG val )
+{
+  if ( overflow ) throw runtime_error( "Arithmetic overflow" );
+  return val;
+}
+
+static RINGING_LLONG add( RINGING_LLONG l, RINGING_LLONG r )
+{
+  typedef numeric_limits<RINGING_LLONG> lim;
+  bool const bad = r > 0 ? l > lim::max() - r : l < lim::min() - r;
+  return check_overflow( bad, bad ? 0 : l + r );
+}
+
+static RINGING_LLONG subtract( RINGING_LLONG l, RINGING_LLONG r )
+{
+  typedef numeric_limits<RINGING_LLONG> lim;
+  bool const bad = r < 0 ? l > lim::max() + r : l < lim::min() + r;
+  return check_overflow( bad, bad ? 0 : l - r );
+}
+
+static RINGING_LLONG multiply( RINGING_LLONG l, RINGING_LLONG r )
+{
+  typedef numeric_limits<RINGING_LLONG> lim;
+  bool bad = false;
+  if ( l > 0 )
+    bad = r > 0 ? l > lim::max() / r : r < lim::min() / l;
+  else if ( l < 0 )
+    bad = r > 0 ? l < lim::min() / r : r < 0 && l < lim::max() / r;
+  return check_overflow( bad, bad ? 0 : l * r );
+}
+
+static void check_divisor( RINGING_LLONG l, RINGING_LLONG r )
+{
+  if ( r == 0 ) throw runtime_error( "Division by zero" );
+  check_overflow( r == -1 && l == numeric_limits<RINGING_LLONG>::min(), 0 );
+}
+
 RINGING_LLONG add_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
-  return l + sign * r;
+  return sign < 0 ? subtract( l, r ) : add( l, r );
 }
 
 
@@ -819,6 +857,7 @@ void mod_node::debug_print( ostream &os ) const
 RINGING_LLONG mod_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  check_divisor( l, r );
   return l % r;
 }
 
@@ -832,6 +871,7 @@ void div_node::debug_print( ostream &os ) const
 RINGING_LLONG div_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  check_divisor( l, r );
   return l / r;
 }
 
@@ -889,7 +929,7 @@ RINGING_LLONG mult_node::int_evaluate( proof_context &ctx ) const
   if ( left.type(ctx) == expression::integer &&
        right.type(ctx) == expression::integer ) {
     RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
-    return l * r;
+    return multiply( l, r );
   }
   else unable_to("evaluate expression as an integer");
 }
@@ -930,7 +970,7 @@ void add_node::debug_print( ostream &os ) const
 
 RINGING_LLONG increment_node::int_evaluate( proof_context& ctx ) const
 {
-  RINGING_LLONG res( ctx.lookup_symbol(sym).int_evaluate(ctx) + val );
+  RINGING_LLONG res( add( ctx.lookup_symbol(sym).int_evaluate(ctx), val ) );
   ctx.define_symbol( make_pair( sym, expression( new integer_node(res) ) ) );
   return res;
 }
-- 
2.43.0


From 090e608f32f3085d6e7b4822b050820fad820ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 150/183] fix: gsiril's at function rejected the last place

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..21102d5 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -46,7 +46,7 @@ class at_fn_impl : public fnnode {
     if (args.size() != 1)
       throw runtime_error("The at function takes one argument");
     int idx = args[0].int_evaluate(ctx);
-    if (idx < 1 || idx >= ctx.bells())
+    if (idx < 1 || idx > ctx.bells())
       throw runtime_error("Argument out of range in at function");
     row const& r = ctx.current_row();
     int rv = idx > r.bells() ? idx : r[idx-1]+1;
-- 
2.43.0


From 8a7709d78b664d7c4b4390925e260452e77d4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 151/183] fix: gsiril's pos function gave places for bells
 which do not exist

---
 apps/gsiril/functions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 21102d5..2b23dc8 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -63,7 +63,11 @@ class pos_fn_impl : public fnnode {
                            vector<expression> const& args ) const {
     if (args.size() != 1)
       throw runtime_error("The pos function takes one argument");
-    int rv = ctx.current_row().find(args[0].int_evaluate(ctx) - 1) + 1;
+    int b = args[0].int_evaluate(ctx);
+    if (b < 1 || b > ctx.bells())
+      throw runtime_error("Argument out of range in pos function");
+    row const& r = ctx.current_row();
+    int rv = b > r.bells() ? b : r.find(b-1) + 1;
     return expression( new integer_node(rv) );
   }
 
-- 
2.43.0


From 440b8c28cdb7173937040d5e080bb05b928f4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 152/183] fix: gsiril's crus function counted runs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 2b23dc8..32f8988 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -262,7 +262,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From b4da0cade77085df82558dcf9bd4067a95ec7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 153/183] fix: gsiril printed a blank line for each row not
 matching the row mask

---
 apps/gsiril/proof_context.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index 3c4dd94..cfc8a6f 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -325,7 +325,11 @@ string proof_context::substitute_string( const string &str,
                  i != e; ++i) 
             os.out_stream() << ectx.get_args().bellfmt << *i;
         }
-        else return string();
+        else {
+          // The row does not match the mask, so the string is not printed
+          if (no_nl) *no_nl = true;
+          return string();
+        }
 	break;
       case '$':
         // ${..} is disabled in MicroSiril syntax because it would be 
-- 
2.43.0


From fa56a525c68808e7f850ff176880f7c82c601a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 154/183] fix: gsiril did not recognise rounds when given on
 fewer bells

---
 apps/gsiril/statement.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index 32b8b5e..ca92902 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -181,7 +181,8 @@ void rows_stmt::execute( execution_context& e )
 
 void rounds_stmt::execute( execution_context& e )
 {
-  e.rounds( rounds );
+  // Any bells not given are in their own places
+  e.rounds( rounds * row( max(e.bells(), 0) ) );
 
   if ( e.verbose() )
     e.output() << "Set rounds to " << rounds << endl;
-- 
2.43.0


From 8c3ad37283bd4530384e04085003c7fe4b52acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 155/183] fix: gsiril executed conflict for every row after the
 first false one

---
 apps/gsiril/proof_context.cpp | 8 +++++++-
 apps/gsiril/proof_context.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index cfc8a6f..b0f0a7a 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -141,7 +141,8 @@ bool proof_context::permute_and_prove_t::prove()
   if ( pctx.max_length && p.size() > pctx.max_length ) 
     pctx.execute_symbol("toolong");
   if ( pctx.isrounds() ) pctx.execute_symbol("rounds");
-  if ( !rv ) pctx.execute_symbol("conflict");
+  if ( !rv && p.count_row(r) > pctx.extents() ) 
+    pctx.execute_symbol("conflict");
   return rv;
 }
 
@@ -173,6 +174,11 @@ int proof_context::bells() const
   return ectx.bells();
 }
 
+int proof_context::extents() const
+{
+  return ectx.extents();
+}
+
 void proof_context::execute_symbol( const string& sym, int dir )
 {
   if ( output ) {
diff --git a/apps/gsiril/proof_context.h b/apps/gsiril/proof_context.h
index bc676f4..f011c45 100644
--- a/apps/gsiril/proof_context.h
+++ b/apps/gsiril/proof_context.h
@@ -77,6 +77,7 @@ public:
   bool isrounds() const;
   size_t length() const { return p->size(); }
   int bells() const;
+  int extents() const;
 
   bool set_silent( bool s ) { bool rv = silent; silent = s; return rv; }
 
-- 
2.43.0


From d292df7af4d9f11f1d30275915735ab34540a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 156/183] fix: gsiril counted each node twice, so an odd
 --node-limit had no effect

---
 apps/gsiril/execution_context.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..715d864 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -148,7 +148,6 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
 void execution_context::increment_node_count() const
 {
-  ++node_count;
   if (++node_count == args.node_limit)
     throw runtime_error("Node count exceeded");
 }
-- 
2.43.0


From d655a83f31cfae115a45e9c0263c74c061a4f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 157/183] fix: gsiril's N to M rows statement ignored M

---
 apps/gsiril/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 9b43c6e..38e335c 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -401,7 +401,7 @@ statement msparser::parse_command( vector<token> const& cmd ) {
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
     return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[1]) ) );
+                                     string_to_int(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
-- 
2.43.0


From 64d63ab1c3e459fd9c9642b8d381765f4ad93d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:55 +0000
Subject: [PATCH 158/183] fix: gsiril did not define max_length when there was
 no minimum length

---
 apps/gsiril/execution_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 715d864..8b14458 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -71,7 +71,7 @@ execution_context::expected_length( pair<size_t, size_t> l )
 { 
   // Define min_length and max_length so they can be referenced by 
   // tooshort and toolong, respectively.
-  if (l.first && l.second) {
+  if (l.first || l.second) {
     sym_table.define
       ( pair<const string, expression>( "min_length", 
           expression( new integer_node(l.first) ) ) );
-- 
2.43.0


From 5328933218288817852d238d9eb2555918d220d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:05 +0000
Subject: [PATCH 159/183] fix: gsiril repeated a block for ever when multiplied
 by -1

---
 apps/gsiril/expression.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index 19440aa..ebb0ef5 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -903,6 +903,13 @@ void mult_node::debug_print( ostream &os ) const
   right.debug_print(os);
 }
 
+static int repeat_count( RINGING_LLONG n )
+{
+  if ( n < 0 || n > numeric_limits<int>::max() )
+    throw runtime_error( "Number of repeats out of range" );
+  return n;
+}
+
 void mult_node::execute( proof_context &ctx, int dir ) const
 {
   if ( left.type(ctx) == expression::integer &&
@@ -916,9 +923,11 @@ void mult_node::execute( proof_context &ctx, int dir ) const
     expression rep;
     int count;  expression expr;
     if ( left.type(ctx) == expression::integer )
-      rep = expression( new repeated_node( left.int_evaluate(ctx), right ) );
+      rep = expression( new repeated_node
+        ( repeat_count( left.int_evaluate(ctx) ), right ) );
     else if ( right.type(ctx) == expression::integer )
-      rep = expression( new repeated_node( right.int_evaluate(ctx), left ) );
+      rep = expression( new repeated_node
+        ( repeat_count( right.int_evaluate(ctx) ), left ) );
     else unable_to("execute * operator with mismatched operands");
     rep.execute( ctx, dir );
   }
-- 
2.43.0


From 565ec9f67e81ab1080ac3a77a235fb823a457684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:14 +0000
Subject: [PATCH 160/183] fix: gsiril lost the high bits of large numbers

---
 apps/gsiril/parser.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 38e335c..0dc073d 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -34,6 +34,7 @@
 #include <stdexcept.h>
 #include <vector.h>
 #else
+#include <limits>
 #include <stdexcept>
 #include <vector>
 #endif
@@ -47,6 +48,20 @@
 
 RINGING_USING_NAMESPACE
 
+// Converts a number literal, checking for overflow
+static RINGING_LLONG literal_to_num
+  ( string const& str, RINGING_LLONG max = numeric_limits<int>::max() )
+{
+  RINGING_LLONG val = 0;
+  for ( string::const_iterator i=str.begin(), e=str.end(); i!=e; ++i ) {
+    int const digit = *i - '0';
+    if ( val > (max - digit) / 10 )
+      throw runtime_error( make_string() << "Number out of range: " << str );
+    val = val * 10 + digit;
+  }
+  return val;
+}
+
 RINGING_START_ANON_NAMESPACE
 
 //////////////////////////////////////////////////////////
@@ -383,25 +398,25 @@ statement msparser::parse_command( vector<token> const& cmd ) {
   // Bells directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::num_lit
        && cmd[1].type() == tok_types::name && cmd[1] == "bells" )
-    return statement( new bells_stmt( string_to_int(cmd[0]) ) );
+    return statement( new bells_stmt( literal_to_num(cmd[0]) ) );
 
   // Extents directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::num_lit
        && cmd[1].type() == tok_types::name && cmd[1] == "extents" )
-    return statement( new extents_stmt( string_to_int(cmd[0]) ) );
+    return statement( new extents_stmt( literal_to_num(cmd[0]) ) );
 
   // Rows directive (simple form)
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::num_lit
        && cmd[1].type() == tok_types::name && cmd[1] == "rows" )
-    return statement( new rows_stmt( string_to_int(cmd[0]) ) );
+    return statement( new rows_stmt( literal_to_num(cmd[0]) ) );
 
   // Rows directive (range form)
   if ( cmd.size() == 4 && cmd[0].type() == tok_types::num_lit
        && cmd[1].type() == tok_types::name && cmd[1] == "to" 
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
-    return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[2]) ) );
+    return statement( new rows_stmt( literal_to_num(cmd[0]),
+                                     literal_to_num(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
@@ -903,7 +918,7 @@ msparser::make_expr( vector< token >::const_iterator first,
 
       int times(-1);
       if ( first->type() == tok_types::num_lit )
-	times = string_to_int( *first );
+	times = literal_to_num( *first );
 
       return expression
 	( new repeated_node( times,
@@ -985,7 +1000,8 @@ msparser::make_expr( vector< token >::const_iterator first,
       return expression( new pattern_node( bells(), *first ) );
 
     case tok_types::num_lit:
-      return expression( new integer_node( string_to_int(*first) ) );
+      return expression( new integer_node
+        ( literal_to_num(*first, numeric_limits<RINGING_LLONG>::max()) ) );
 
     default:
       throw runtime_error( "Unknown token in input" );
-- 
2.43.0


From 22e8c543f939674d3d762cefbcdf9ba8123f6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 161/183] fix: gsiril -P proved an old definition of the first
 symbol

---
 apps/gsiril/execution_context.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 8b14458..9ea4033 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -131,7 +131,8 @@ bool execution_context::default_define_symbol( const pair< const string, express
 
   if ( sym_table.lookup( "__first__" ).isnull() )
     sym_table.define
-      ( pair<const string, expression>( "__first__", defn.second ) );
+      ( pair<const string, expression>
+          ( "__first__", expression( new symbol_node(defn.first) ) ) );
   return true;
 }
 
@@ -142,7 +143,8 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
   if ( sym_table.lookup( "__first__" ).isnull() )
     sym_table.define
-      ( pair<const string, expression>( "__first__", defn.second ) );
+      ( pair<const string, expression>
+          ( "__first__", expression( new symbol_node(defn.first) ) ) );
   return false;
 }
 
-- 
2.43.0


From a7e0e3db45ce486abefe7daef5b7b6885afed6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:03 +0000
Subject: [PATCH 162/183] fix: gsiril -qq did not silence the echo statement

---
 apps/gsiril/statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index ca92902..9791170 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -266,6 +266,8 @@ void echo_stmt::execute( execution_context& e )
   bool no_nl = false;
   string str( expr.string_evaluate(p, &no_nl) );
 
+  if ( e.get_args().quiet >= 2 && mode == echo ) return;
+
   ostream& os = mode == echo ? e.output() : cerr;
   os << str;
   if (!no_nl) os << '\n';
-- 
2.43.0


From 3bfc5b892a0a404b5a573f3560503d95c50edbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:30 +0000
Subject: [PATCH 163/183] fix: gsiril -I did not apply to symbols in strings

---
 apps/gsiril/proof_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index b0f0a7a..8b77eb9 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -41,6 +41,7 @@
                        // of bug in MSVC 6.0
 #include "proof_context.h"
 #include "execution_context.h"
+#include "stringutils.h"
 
 #include <ringing/streamutils.h>
 
@@ -347,7 +348,9 @@ string proof_context::substitute_string( const string &str,
           string::const_iterator j = std::find(i+2, e, '}');
           if (j == e) throw runtime_error("Incomplete variable interpolation "
                                           "in string '" + str + "'");
-          expression e( lookup_symbol( string(i+2, j) ) );
+          string name(i+2, j);
+          if ( ectx.get_args().case_insensitive ) name = lower_case(name);
+          expression e( lookup_symbol(name) );
           proof_context ctx2( silent_clone() );
           os << e.string_evaluate(ctx2);
           i = j;
-- 
2.43.0


From df0f32ff5a67826c7b13e526043dcc53dc7718c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:53 +0000
Subject: [PATCH 164/183] fix: gsiril ran out of stack on symbols defined in
 terms of themselves

---
 apps/gsiril/execution_context.cpp | 11 ++++++++-
 apps/gsiril/execution_context.h   |  3 +++
 apps/gsiril/expr_base.cpp         | 37 +++++++++++++++++++++++++++++++
 apps/gsiril/expr_base.h           |  6 ++---
 apps/gsiril/proof_context.cpp     | 10 +++++++++
 apps/gsiril/proof_context.h       |  2 ++
 6 files changed, 64 insertions(+), 5 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 9ea4033..d1fa32b 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -90,7 +90,7 @@ execution_context::expected_length( pair<size_t, size_t> l )
 
 execution_context::execution_context( ostream& os, const arguments& a )
   : args(a), rmask(a.row_mask.length() ? a.row_mask : "*"), os(&os), 
-    failed(false), node_count(0), done_proof(false)
+    failed(false), node_count(0), node_depth(0), done_proof(false)
 {
   if ( args.bells ) {
     if ( !args.rounds.bells() )
@@ -154,6 +154,15 @@ void execution_context::increment_node_count() const
     throw runtime_error("Node count exceeded");
 }
 
+void execution_context::enter_node() const
+{
+  // Symbols can be defined in terms of themselves, so a limit is needed to
+  // avoid running out of stack.
+  if (node_depth == 10000)
+    throw runtime_error("Expression nested too deeply");
+  ++node_depth;
+}
+
 bool execution_context::evaluate_bool_const( expression const& cond ) const {
   proof_context p(*this);
   p.set_silent(true);
diff --git a/apps/gsiril/execution_context.h b/apps/gsiril/execution_context.h
index b59db98..9f54187 100644
--- a/apps/gsiril/execution_context.h
+++ b/apps/gsiril/execution_context.h
@@ -89,6 +89,8 @@ public:
   bool failure() const { return failed; }
 
   void increment_node_count() const;
+  void enter_node() const;
+  void leave_node() const { --node_depth; }
   RINGING_ULLONG get_node_count() const { return node_count; }
   
   bool done_one_proof() const { return done_proof; }
@@ -117,6 +119,7 @@ private:
   symbol_table sym_table;
   bool failed;
   mutable RINGING_ULLONG node_count;
+  mutable int node_depth;
   bool done_proof;
 };
 
diff --git a/apps/gsiril/expr_base.cpp b/apps/gsiril/expr_base.cpp
index 732c6f7..2069da5 100644
--- a/apps/gsiril/expr_base.cpp
+++ b/apps/gsiril/expr_base.cpp
@@ -131,59 +131,96 @@ expression expression::snode::evaluate( proof_context& ctx ) const {
 }
 
 
+RINGING_START_ANON_NAMESPACE
+
+// Keeps track of how deeply nested the node being evaluated is
+class depth_guard
+{
+public:
+  explicit depth_guard( proof_context const& ctx ) : ctx(ctx) 
+    { ctx.enter_node(); }
+ ~depth_guard() { ctx.leave_node(); }
+
+private:
+  proof_context const& ctx;
+};
+
+RINGING_END_ANON_NAMESPACE
+
+expression::type_t expression::type( proof_context &ctx ) const { 
+  depth_guard dg(ctx);
+  return impl ? impl->type(ctx) : no_type;
+}
+
+string expression::name( proof_context &ctx ) const { 
+  depth_guard dg(ctx);
+  return impl ? impl->name(ctx) : string();
+}
+
 void expression::execute( proof_context &ctx, int dir ) const { 
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   impl->execute(ctx, dir); 
 }
 
 expression expression::evaluate( proof_context& ctx ) const { 
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->evaluate(ctx); 
 }
 
 bool expression::bool_evaluate( proof_context& ctx ) const { 
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->bool_evaluate(ctx); 
 }
 
 RINGING_LLONG expression::int_evaluate( proof_context& ctx ) const { 
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->int_evaluate(ctx); 
 }
 
 string expression::string_evaluate( proof_context& ctx ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->string_evaluate(ctx); 
 }
 
 string expression::string_evaluate( proof_context& ctx, bool* no_nl ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->string_evaluate(ctx, no_nl); 
 }
 
 vector<change> expression::pn_evaluate( proof_context& ctx ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->pn_evaluate(ctx); 
 }
 
 music expression::music_evaluate( proof_context& ctx ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->music_evaluate(ctx); 
 }
 
 vector<expression> expression::array_evaluate( proof_context& ctx ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->array_evaluate(ctx); 
 }
 
 expression expression::call( proof_context& ctx, 
                              vector<expression> const& args ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->call(ctx, args); 
 }
 
 void 
 expression::apply_replacement( proof_context& ctx, vector<change>& m ) const {
+  depth_guard dg(ctx);
   ctx.increment_node_count();
   return impl->apply_replacement(ctx, m); 
 }
diff --git a/apps/gsiril/expr_base.h b/apps/gsiril/expr_base.h
index 3a922c0..3de0d6b 100644
--- a/apps/gsiril/expr_base.h
+++ b/apps/gsiril/expr_base.h
@@ -131,10 +131,8 @@ public:
 
   bool isnull() const { return !impl; }
   bool isnop() const { return !impl || impl->isnop(); }
-  type_t type( proof_context &ctx ) const 
-    { return impl ? impl->type(ctx) : no_type; }
-  string name( proof_context &ctx ) const 
-    { return impl ? impl->name(ctx) : string(); }
+  type_t type( proof_context &ctx ) const;
+  string name( proof_context &ctx ) const;
 
   void debug_print( ostream &os ) const    { impl->debug_print(os); }
 
diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index 8b77eb9..f8ef1bd 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -418,6 +418,16 @@ void proof_context::increment_node_count() const
   return ectx.increment_node_count();
 }
 
+void proof_context::enter_node() const
+{
+  ectx.enter_node();
+}
+
+void proof_context::leave_node() const
+{
+  ectx.leave_node();
+}
+
 // TODO: This is duplicated in ringing/library.cpp
 RINGING_START_ANON_NAMESPACE
 list<string> split_path( string const& p )
diff --git a/apps/gsiril/proof_context.h b/apps/gsiril/proof_context.h
index f011c45..36fc1b4 100644
--- a/apps/gsiril/proof_context.h
+++ b/apps/gsiril/proof_context.h
@@ -105,6 +105,8 @@ public:
   proof_context silent_clone() const;
 
   void increment_node_count() const;
+  void enter_node() const;
+  void leave_node() const;
 
   int music_score() const { return mus.get_score(); }
 
-- 
2.43.0


From 2e28dd51699b97784cf4ca262adaa19b6ed3ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 165/183] fix: looking for a method in a library which could
 not be read crashed

---
 ringing/library.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ringing/library.h b/ringing/library.h
index 646a9d6..ac59b9d 100644
--- a/ringing/library.h
+++ b/ringing/library.h
@@ -164,15 +164,22 @@ public:
   library(library_base* i) { this->set_impl(i); }
 
   // Reading the library.
-  library_entry find(const method& pn) const { return lb()->find(pn); }
-  library_entry find(const string& title) const { return lb()->find(title); }
+  library_entry find(const method& pn) const
+    { return lb() ? lb()->find(pn) : library_entry(); }
+  library_entry find(const string& title) const
+    { return lb() ? lb()->find(title) : library_entry(); }
 
   method load(const string& name, int stage=0) const
-    { return lb()->load(name, stage); }
+    {
+#if RINGING_USE_EXCEPTIONS
+      if ( !lb() ) throw library_base::invalid_name();
+#endif
+      return lb()->load(name, stage);
+    }
 
 #if RINGING_BACKWARDS_COMPATIBLE(0,4,0)
-  int dir(list<string>& result) const { return lb()->dir(result); }
-  int mdir(list<method>& result ) const { return lb()->mdir(result); }
+  int dir(list<string>& result) const { return lb() ? lb()->dir(result) : 0; }
+  int mdir(list<method>& result ) const { return lb() ? lb()->mdir(result) : 0; }
 #endif
 
 #if RINGING_BACKWARDS_COMPATIBLE(0,3,0)
-- 
2.43.0


From 1f241381651beb04db79569ad4af6d086f63be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 166/183] fix: ringmethod wrote the wrong sample rate in its
 header

---
 apps/ringmethod/ringmethod.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index d13fac2..09b75d1 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -249,9 +249,9 @@ row_player::row_player( tower_sounds& tower, int peal_speed, double hs_lead,
 static void sprintf_uint32le( char* pbuf, uint32_t val )
 {
   pbuf[0] = (val & 0x000000FF) >> 0x0;
-  pbuf[1] = (val & 0x0000FF00) >> 0x4;
-  pbuf[2] = (val & 0x00FF0000) >> 0x8;
-  pbuf[3] = (val & 0xFF000000) >> 0xC;
+  pbuf[1] = (val & 0x0000FF00) >> 0x8;
+  pbuf[2] = (val & 0x00FF0000) >> 0x10;
+  pbuf[3] = (val & 0xFF000000) >> 0x18;
 }
 
 void row_player::header( ostream& os )
-- 
2.43.0


From 25bf0e6e497657315d807f18d2434c6911c143e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 167/183] fix: ringmethod did not accept a deviation with -o

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 09b75d1..089ce03 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -466,7 +466,7 @@ bool offset_opt::parse_meandev( string const& meandev, arg_parser const& ap,
 
   if ( comma != string::npos ) {
     try { 
-      stddev = lexical_cast<double>( meandev.substr(comma) );
+      stddev = lexical_cast<double>( meandev.substr(comma+1) );
     } catch ( bad_lexical_cast const& ) {
       ap.error( make_string() << "Invalid deviation: \"" 
                               << meandev.substr(comma) << "\"" );
-- 
2.43.0


From baf4429f659504de8981f4ebbf1fc4d1f6cc05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 168/183] fix: ringmethod's bells were an octave too high on 7
 or 14 bells

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 089ce03..45b4b94 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -143,7 +143,7 @@ private:
 tower_sounds::tower_sounds( double tenor_freq, int num, int sample_rate )
   : srate(sample_rate)
 {
-  tenor_freq *= ipower( 2, num / 7 );
+  tenor_freq *= ipower( 2, num > 0 ? (num-1) / 7 : 0 );
   bellv.reserve(num);
   int n = num % 7;
   double a = 1, ax = 1.02;
-- 
2.43.0


From cc5fef9566a39b8350792c048ed89285358a13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 169/183] fix: ringmethod used an uninitialised value when
 there were no rows

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 45b4b94..ded223d 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -305,7 +305,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
   //bool have_queued_bell = false;
   //bell queued_bell;
   //int queued_timestep;
-  int eof_timestep;
+  int eof_timestep = 0;
 
   size_t t = 0;
 
-- 
2.43.0


From cbcc974dbb6be6d0a243eedefdc19cbb3f6add87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 170/183] fix: ringmethod did not end if a bell was due before
 the previous row had finished

---
 apps/ringmethod/ringmethod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index ded223d..67678d6 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -335,10 +335,10 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
         r *= row(tower.bells());
     }
  
-    if (queued_bells.size() && queued_timestamp == t) {
+    if (queued_bells.size() && queued_timestamp <= t) {
       queued_timestamp = INT_MAX;
       for (int i=0; i < queued_bells.size(); ) {
-        if (queued_bells[i].second == t) {
+        if (queued_bells[i].second <= t) {
           tower.strike( queued_bells[i].first );
           queued_bells.erase( queued_bells.begin() + i );
         } else {
-- 
2.43.0


From b242971568c8e593c42dc59dd9866e36b8559e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 171/183] fix: ringmethod did not write the last part of the
 sound

---
 apps/ringmethod/ringmethod.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 67678d6..3bab7d2 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -357,6 +357,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
       data_idx = 0;
     }
   }
+  os.write( (char const*)data, 2*data_idx );
 }
 
 class double_opt : public option
-- 
2.43.0


From 84d8398a9422545c9bc1be14d7950d3db5aa7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:34 +0000
Subject: [PATCH 172/183] fix: ringmethod crashed on options out of range

---
 apps/ringmethod/ringmethod.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 3bab7d2..d2fd7c1 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -240,7 +240,7 @@ private:
 
 row_player::row_player( tower_sounds& tower, int peal_speed, double hs_lead,
                         map<bell, offset> const& striking )
-  : tower(tower), bell_sep(peal_speed * 60 / 2500.0 / (tower.bells()*2+1)),
+  : tower(tower), bell_sep(peal_speed * 60.0 / 2500.0 / (tower.bells()*2+1)),
     hs_lead(hs_lead), striking(striking)
 {
   assert( bell_sep * tower.sample_rate() > 2.0 );
@@ -406,6 +406,7 @@ bool time_opt::process( const string& arg, const arg_parser& ap ) const
     opt = lexical_cast<int>(arg.substr(0,i));
 
     if ( i != string::npos && arg[i] != 'm' ) {
+      if ( opt < 0 || opt > 10000 ) throw bad_lexical_cast();
       opt *= 60;
       if ( i+1 != arg.size() )
         opt += lexical_cast<int>(arg.substr(i+1, arg.find('m',i+1)-i-1));
@@ -581,6 +582,23 @@ void arguments::bind( arg_parser& p )
 
 bool arguments::validate( arg_parser& ap )
 {
+  if ( bells <= 0 || bells > 255 ) {
+    ap.error( "The number of bells must be specified with -b" );
+    return false;
+  }
+  if ( sample_rate <= 0 || sample_rate > 1000000 ) {
+    ap.error( "The sample rate is out of range" );
+    return false;
+  }
+  if ( default_deviation < 0 ) {
+    ap.error( "The deviation must not be negative" );
+    return false;
+  }
+  if ( peal_speed * 60.0 / 2500 / (bells*2+1) * sample_rate <= 2.0 ) {
+    ap.error( "The peal speed is too fast" );
+    return false;
+  }
+
   for ( bell b=0; b<bells; ++b )
     if ( striking.find(b) == striking.end() ) 
       striking[b] = offset();
-- 
2.43.0


From b530348273d2f04dac927c04c70605c84245367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:34 +0000
Subject: [PATCH 173/183] fix: ringmethod's sound overflowed when loud or very
 long

---
 apps/ringmethod/ringmethod.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index d2fd7c1..560fb36 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -321,8 +321,12 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
           ( row_idx % 2 ? o.meanpos_b : o.meanpos_h,  
             row_idx % 2 ? o.stddev_b  : o.stddev_h );
         double posn = i + row_idx * tower.bells() + row_idx/2 * hs_lead + off;
-        ts = (int)( posn * bell_sep * tower.sample_rate() );
-        if (ts<0) ts = 0;
+        posn *= bell_sep * tower.sample_rate();
+        // Allow room for the final bell to fade away
+        const int max_ts = INT_MAX - 5 * tower.sample_rate();
+        if (posn < 0) ts = 0;
+        else if (posn < max_ts) ts = (int)posn;
+        else ts = max_ts;
         if (ts<queued_timestamp) queued_timestamp = ts;
         queued_bells.push_back( make_pair( r[i], ts ) );
       }
@@ -349,7 +353,8 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
       }
     }
 
-    data[data_idx] = (int16_t)( tower.sample() * 1000 );
+    double s = tower.sample() * 1000;
+    data[data_idx] = (int16_t)( s < -32768 ? -32768 : s > 32767 ? 32767 : s );
     ++data_idx;  ++t;
 
     if (data_idx == datasz) {
-- 
2.43.0


From 81be9db4255119a633eb555c33ed936c80286dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:34 +0000
Subject: [PATCH 174/183] fix: ringmethod crashed on a row with too many bells

---
 apps/ringmethod/ringmethod.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 560fb36..3cd1fef 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -22,6 +22,8 @@
 #include <stdint.h>
 #include <iostream>
 #include <cassert>
+#include <climits>
+#include <stdexcept>
 #include <vector>
 #include <iterator>
 
@@ -296,6 +298,8 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
 {
   row r = rr->next();  
   if (r.bells() < tower.bells()) r *= row(tower.bells());
+  else if (r.bells() > tower.bells())
+    throw runtime_error( "Row has too many bells" );
 
   size_t bell_idx = 0, row_idx = 0;
 
@@ -337,6 +341,8 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
         eof_timestep = ts + 5 * tower.sample_rate();
       else if (r.bells() < tower.bells()) 
         r *= row(tower.bells());
+      else if (r.bells() > tower.bells())
+        throw runtime_error( "Row has too many bells" );
     }
  
     if (queued_bells.size() && queued_timestamp <= t) {
@@ -649,6 +655,12 @@ int main(int argc, char* argv[])
   tower_sounds tower( args.tenor_nominal, args.bells, args.sample_rate ); 
   row_player player( tower, args.peal_speed, args.hs_lead, args.striking );
   player.header( cout );
-  player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+  try {
+    player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+  } catch ( exception const& e ) {
+    cout.flush();
+    cerr << argv[0] << ": " << e.what() << endl;
+    return 1;
+  }
 }
 
-- 
2.43.0


From 3eaeb88669d95a71c9c940836dad47bb06103f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 175/183] fix: splices terminated on a method which could not
 be parsed

---
 apps/splices/splices.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 5cbe493..3f59296 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -653,12 +653,19 @@ int main( int argc, char *argv[] )
     args.rows.assign( istream_iterator<row>(in), istream_iterator<row>() );
   }
 
-  if ( args.read_rows || args.meth.size() >= 2 ) {
-    methodset in( args.meth.begin(), args.meth.end() );
-    spl.find_splices( in );
+  try {
+    if ( args.read_rows || args.meth.size() >= 2 ) {
+      methodset in( args.meth.begin(), args.meth.end() );
+      spl.find_splices( in );
+    }
+    else {
+      litelib in( args.bells, cin );
+      spl.find_splices( in );
+    }
   }
-  else {
-    litelib in( args.bells, cin );
-    spl.find_splices( in );
+  catch ( exception const& e ) {
+    cout.flush();
+    cerr << "splices: " << e.what() << endl;
+    exit(1);
   }
 }
-- 
2.43.0


From 48992499dfbeeeace13809c5cec4e4d446802fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 176/183] fix: spliceplan terminated on methods of a single
 change

---
 apps/spliceplan/spliceplan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 8bc0b3d..857fc9a 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -676,7 +676,7 @@ void searcher::set_method( row_t const& lh1, method_ptr const& m )
 
   for ( vector<row_t>::const_iterator
           pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi ) {
-    if ( !pi->isrounds() && *pi * lh1 == le1 )
+    if ( *pi * lh1 == le1 )
       palindrome = true;
   }
 
@@ -705,7 +705,7 @@ void searcher::unset_method( row_t const& lh1, method_ptr const& m )
 
   for ( vector<row_t>::const_iterator
           pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi ) {
-    if ( !pi->isrounds() && *pi * lh1 == le1 )
+    if ( *pi * lh1 == le1 )
       palindrome = true;
   }
 
-- 
2.43.0


From 7180de52eb066907bba3642740937b2fac05ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:54 +0000
Subject: [PATCH 177/183] fix: printmethod overflowed on a large number of
 rounds

---
 apps/printmethod/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index 0598c95..c581ac0 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -233,7 +233,7 @@ int main(int argc, char* argv[])
 
   row r( args.startrow );  bool first = true;
 
-  for ( int i=0; i<args.init_rounds*2; ++i)
+  for ( int i=0; i/2<args.init_rounds; ++i)
     cout << args.bellfmt << r << "\n";
 
   do for ( method::const_iterator i=args.meth.begin(), e=args.meth.end(); 
@@ -248,7 +248,7 @@ int main(int argc, char* argv[])
   if (!args.omit_final && args.meth.size())
     cout << args.bellfmt << r << "\n";
 
-  for ( int i=0; i<args.final_rounds*2; ++i)
+  for ( int i=0; i/2<args.final_rounds; ++i)
     cout << args.bellfmt << r << "\n";
 }
 
-- 
2.43.0


From 851287c350694a2a36c93f948cc07218db271315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 178/183] fix: psline crashed on numbers out of range and on
 methods of zero length

---
 apps/psline/psline.cpp | 59 +++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 26c9090..b83f9df 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -108,6 +108,30 @@ bool parse_float(const string& arg, float& f)
   return true;
 }
 
+// Parse a number of things:  there's no sense in a very large number
+bool parse_count(const string& arg, int& i)
+{
+  if(!parse_int(arg, i)) return false;
+  if(i < 0 || i > 10000) {
+    cerr << "Number out of range: \"" << arg << "\"\n";
+    return false;
+  }
+  return true;
+}
+
+// Parse a font size in points to one in tenths of a point
+bool parse_size(const string& arg, int& i)
+{
+  float f;
+  if(!parse_float(arg, f)) return false;
+  if(!(f >= 0 && f <= 10000)) {
+    cerr << "Font size out of range: \"" << arg << "\"\n";
+    return false;
+  }
+  i = static_cast<int>(f * 10);
+  return true;
+}
+
 bool parse_dimension(const string& arg, dimension& d)
 {
   try {
@@ -276,7 +300,6 @@ void setup_args(arg_parser& p)
 bool myopt::process(const string& arg, const arg_parser& ap) const
 {
   string::const_iterator s;
-  float f;
   switch(shortname) {
     case '\0' :
       if(args.library_name.empty())
@@ -314,27 +337,25 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       args.font = arg;
       break;
     case 's' :
-      if(!parse_float(arg, f)) return false;
-      args.font_size = static_cast<int>(f * 10);
-      break;
+      return parse_size(arg, args.font_size);
     case 'i' :
       args.rows_per_column = 0;
-      return parse_int(arg, args.leads_per_column);
+      return parse_count(arg, args.leads_per_column);
     case 'I' :
       args.leads_per_column = 0;
-      return parse_int(arg, args.rows_per_column);
+      return parse_count(arg, args.rows_per_column);
     case 'j' :
       args.total_rows = 0;
-      return parse_int(arg, args.total_leads);
+      return parse_count(arg, args.total_leads);
     case 'J' :
       args.total_leads = 0;
-      return parse_int(arg, args.total_rows);
+      return parse_count(arg, args.total_rows);
     case 'g' :
-      return parse_int(arg, args.pages);
+      return parse_count(arg, args.pages);
     case 'd' :
-      return parse_int(arg, args.sets_per_page);
+      return parse_count(arg, args.sets_per_page);
     case 'k' :
-      return parse_int(arg, args.columns_per_set);
+      return parse_count(arg, args.columns_per_set);
     case 'x' :
       args.fit = false;
       return parse_dimension(arg, args.xspace);
@@ -476,9 +497,8 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	if(s != arg.end()) {
 	  args.title_style.font = next_bit(arg, s);
 	  if(s != arg.end()) {
-	    if(!parse_float(next_bit(arg, s), f))
+	    if(!parse_size(next_bit(arg, s), args.title_style.size))
 	      return false;
-	    args.title_style.size = static_cast<int>(f * 10);
 	    if(s != arg.end()) {
 	      if(!parse_colour(next_bit(arg, s), args.title_style.col))
 		return false;
@@ -496,9 +516,7 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       args.title_style.font = arg;
       break;
     case '\002' :
-      if(!parse_float(arg, f)) return false;
-      args.title_style.size = static_cast<int>(f * 10);
-      break;
+      return parse_size(arg, args.title_style.size);
     case '\003' :
       return parse_colour(arg, args.title_style.col);
     case 'm' :
@@ -651,12 +669,11 @@ int main(int argc, char *argv[])
 	return 1;
       }
       m = l.load(args.method_name);
-    } else {
+    } else
       m = method(args.library_name, args.bells);
-      if(m.length() == 0) {
-	cerr << "Method is of zero length!\n";
-	return 1;
-      }
+    if(m.length() == 0) {
+      cerr << "Method is of zero length!\n";
+      return 1;
     }
 
     // Set up our options
-- 
2.43.0


From c0be226c9604450547059dc4afd86f298775cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:10 +0000
Subject: [PATCH 179/183] fix: printmethod::fit_to_space crashed when there was
 no space to fit to

---
 ringing/printm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index aae9104..83ae88e 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -265,6 +265,7 @@ void printmethod::fit_to_space(const dimension& width,
   }
 
   leads_per_column -= 2;
+  if(leads_per_column < 1) leads_per_column = 1;
   if(vgap_mode) {
     rows_per_column = lead;
     sets_per_page = leads_per_column;
-- 
2.43.0


From 86a88737b2d380c8bdd381561e74eea55a66971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:10 +0000
Subject: [PATCH 180/183] fix: psline -x or -y gave no size to anything not set
 explicitly

---
 apps/psline/psline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index b83f9df..5f6feda 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -759,7 +759,7 @@ int main(int argc, char *argv[])
 	}
     
     // Set the space to fit to
-    if(args.fit && args.fitwidth == 0) {
+    if(args.fitwidth == 0) {
       args.fitwidth.set_float(args.width.in_points() - 72, 1);
       args.fitheight.set_float(args.height.in_points() - 72, 1);
     }
-- 
2.43.0


From 66336c4b6f9c20d7f888ea11be1949244538ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:13 +0000
Subject: [PATCH 181/183] fix: methsearch did not explain a bad treble path

---
 apps/methsearch/prog_args.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index cee3a7c..e4c336a 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -966,7 +966,7 @@ bool arguments::validate_bells( arg_parser* ap )
     return false;
   }
 
-  if ( !validate_path() ) return false;
+  if ( !validate_path( ap ) ) return false;
 
   if ( hunt_bells >= bells ) {
     if (ap) ap->error( make_string() << "Method must have fewer than " 
-- 
2.43.0


From e64faa7c59c438dc3b03aa6840c8ebc47188bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:26 +0000
Subject: [PATCH 182/183] fix: touchsearch --filter crashed on a method with no
 changes

---
 apps/touchsearch/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 33a9279..c773707 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -217,6 +217,12 @@ void filter( arguments const& args )
         continue;
       }
 
+      if ( filter_method.empty() ) {
+        std::cerr << "Error reading method from input stream: "
+                  << "the method has no changes\n" << std::flush;
+        continue;
+      }
+
       string filter_line = i->pn();
       filter_line += "\t";
       filter_line += i->get_facet<litelib::payload>();
-- 
2.43.0


From 6da5c7dd3a99247264f80db78d654fb3e35a9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:13 +0000
Subject: [PATCH 183/183] fix: ringmethod rang a row of rounds when there were
 no rows

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 3cd1fef..b4de37e 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -297,7 +297,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
                           ostream& os )
 {
   row r = rr->next();  
-  if (r.bells() < tower.bells()) r *= row(tower.bells());
+  if (r.bells() && r.bells() < tower.bells()) r *= row(tower.bells());
   else if (r.bells() > tower.bells())
     throw runtime_error( "Row has too many bells" );
 
-- 
2.43.0

