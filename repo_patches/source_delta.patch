From 2d0b993bdb8a46d14b11ca58ed9a29851f4bc2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:44 +0000
Subject: [PATCH 001/154] fix: product of tensor proxies writes out of bounds
 when one of them is a scalar

---
 src/Tensor.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 56690c0..0347175 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -418,22 +418,20 @@ TensorProxy AmpGen::operator*( const TensorProxy& t1, const TensorProxy& t2 )
     auto coords = Tensor::index_to_coordinates( elem, finalTensorRank );
     std::vector<unsigned> t1_coords( t1_size, 0 );
     std::vector<unsigned> t2_coords( t2_size, 0 );
-    unsigned i = 0;
     unsigned j = 0;
-    do {
+    for( unsigned i = 0; i < t1_size; ++i ){
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.i == i ;} )){
         t1_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t1_size );
-    i = 0;
+    }
     j = t1_size - contractions.size();
-    do {
+    for( unsigned i = 0; i < t2_size; ++i ){
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.j == i ;} )){
         t2_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t2_size );
+    }
     
     Expression elementExpression = 0;
     for( unsigned m=0; m<nElementsInSum; ++m) {
-- 
2.43.0


From 87eac84bba197742a7f93874bf8641c55085ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:44 +0000
Subject: [PATCH 002/154] fix: sum of a symmetrised tensor and a general one
 keeps only the symmetric elements

---
 src/Tensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 0347175..c5b7f35 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -496,13 +496,13 @@ TensorProxy AmpGen::operator+( const TensorProxy& t1, const TensorProxy& t2 )
     ERROR("Mapping illformed!" << indices_t1.size() << " " << indices_t2.size());
     return TensorProxy( Tensor(), {} );
   }
-  Tensor result( tensor_t1 );
+  Tensor result( tensor_t1.dims() );
 
-  for ( auto& i : tensor_t1.uniqueElements() ) {
+  for ( unsigned int i = 0; i < tensor_t1.size(); ++i ) {
     auto t1_coords = tensor_t1.coords( i );
     auto t2_coords = std::vector<unsigned>( t1_coords.size(), 0 );
     for( unsigned int j=0;j<t1_coords.size(); ++j ) t2_coords[ j ] = t1_coords[t1_to_t2_mapping[j]];
-    result[i] = result[i] + tensor_t2[t2_coords];
+    result[i] = tensor_t1[t1_coords] + tensor_t2[t2_coords];
   }
   return TensorProxy( result, indices_t1 );
 }
-- 
2.43.0


From 3a5e415ca5509a9cdab400162bfc71aa4d7eb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:44 +0000
Subject: [PATCH 003/154] fix: reordering the indices of a tensor whose
 dimensions differ reads out of bounds

---
 src/Tensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index c5b7f35..69efba5 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -578,10 +578,12 @@ TensorProxy TensorProxy::reorder( const std::vector<Tensor::Index>& indices )
       if( m_indices[j] == indices[i] ) mapping[j] = i;
     }
   }
-  Tensor reordered( m_tensor.dims() ); 
+  std::vector<unsigned> dims( m_tensor.dims() );
+  for(unsigned j = 0; j < m_indices.size(); ++j) dims[mapping[j]] = m_tensor.dims()[j];
+  Tensor reordered( dims ); 
   for(unsigned i = 0 ; i < m_tensor.size(); ++i)
   { 
-    auto coordinates       = Tensor::index_to_coordinates(i,m_tensor.dims() );
+    auto coordinates       = Tensor::index_to_coordinates(i, dims);
     std::vector<unsigned> new_coordinates( m_indices.size() );
     for(unsigned z = 0 ; z < m_indices.size(); ++z )
       new_coordinates[z] = coordinates[mapping[z]];
-- 
2.43.0


From 4f6705a5376772c101547198b1f905144644b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 004/154] fix: simplifying an expression drops its powers,
 comparisons and unexpanded brackets

A term's factor that is a binary expression other than a product or a quotient (a power, atan2,
fmod, a comparison, or the bracket that is left when dividing by a quotient) was silently dropped, so
for example Simplify( pow(x,y) ) was 1. Such factors are now kept as they are.
---
 src/Simplify.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index b39c5b6..be9d6ff 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -12,20 +12,13 @@
 using namespace AmpGen;
 
 void NormalOrderedExpression::Term::addExpression( const Expression& expression){
-  if( is<IBinaryExpression>(expression) ){
-    auto argAsBin = dynamic_cast<IBinaryExpression*>(expression.get());
-    auto l = argAsBin->l(); 
-    auto r = argAsBin->r(); 
-    if( is<Product>(expression) ){
-      addExpression(l);
-      addExpression(r);
-    }
-    if( is<Sum>(expression) || is<Sub>(expression) ) 
-      ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
-    if( is<Divide>(expression) ){
-      addExpression( l );
-      m_divisor = m_divisor * r ;  
-    }
+  if( is<Product>(expression) ){
+    addExpression( cast<Product>(expression).l() );
+    addExpression( cast<Product>(expression).r() );
+  }
+  else if( is<Divide>(expression) ){
+    addExpression( cast<Divide>(expression).l() );
+    m_divisor = m_divisor * cast<Divide>(expression).r();
   }
   else if( is<Constant>(expression) ) m_prefactor *= expression();
   else m_terms.emplace_back( expression, expression.to_string() );
-- 
2.43.0


From 680a6052de16324be5f105a93293f21de5f5fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 005/154] fix: constants are rounded to six digits in generated
 code

Constants were written to the generated source with %g, so the compiled function differs from the
expression at the 1e-6 level, and sub-expressions that differ only in later digits of a constant were
treated as identical. Write enough digits to reproduce the value.
---
 src/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..a9ec469 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -55,7 +55,7 @@ bool isZero( const complex_t& A ){
 
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
-    std::string str = mysprintf("%g", val);
+    std::string str = mysprintf("%.17g", val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From fd326d7c56bc452ad19249a3d52cab55066d358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 006/154] fix: parameter values are written to generated code
 with six decimals

Compile-time constants and the parameters of the _wParams functions were written with
std::to_string, which loses small values entirely (1e-8 becomes 0.000000). Default values were also
not bracketed, so subtracting a negative one did not compile.
---
 src/ASTResolver.cpp            | 4 ++--
 src/CompiledExpressionBase.cpp | 2 +-
 src/ExpressionParser.cpp       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..0fbdc53 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -113,7 +113,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, Constant( it->mean(), 0. ).to_string() );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -121,7 +121,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, Constant( parameter.defaultValue(), 0. ).to_string() );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..7dedb1f 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return mysprintf("%.17g", line); }) ) <<"};\n" ;
   stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
 }
diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..6eda275 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -246,7 +246,7 @@ std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-    return std::to_string( m_parameter->mean() ); 
+    return Constant( m_parameter->mean(), 0. ).to_string(); 
   return resolver->resolvedParameter(this);
 
 }
-- 
2.43.0


From 97f3c63d87d790c0509c400952402624ddf683c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 007/154] fix: a parameter defined by a formula is not
 bracketed in generated code

The formula was inserted verbatim into the surrounding expression, so with p = a + b the expression
p * x was compiled as a + b*x.
---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 6eda275..2857a2b 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -242,7 +242,7 @@ MinuitParameterLink::MinuitParameterLink( MinuitParameter* param ) : m_parameter
 std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
-  if( as_expression != nullptr ) return as_expression->expression().to_string(resolver);
+  if( as_expression != nullptr ) return "(" + as_expression->expression().to_string(resolver) + ")";
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-- 
2.43.0


From e20b9df4e49f746290b255c5668722c28527b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 008/154] fix: formulas using a compile-time constant do not
 compile by default

Unless ASTResolver::CompileTimeConstants is set, such a parameter is a normal run-time parameter of
the generated code and has to be resolved, otherwise it is written to the source as an empty string.
---
 src/ExpressionParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 2857a2b..7286e5a 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -259,7 +259,8 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
   if( as_expression != nullptr ) return as_expression->expression().resolve(resolver);
-  if( m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
+  if( resolver.enableCompileConstants() && m_parameter->flag() == Flag::CompileTimeConstant ) return; 
+  resolver.resolve(*this);
 }
 
 complex_t MinuitParameterLink::operator()() const 
-- 
2.43.0


From bc62d8c997880407d5c274dc7ba8ed694560fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 009/154] fix: derivatives of asin and acos have each other's
 sign

---
 src/UnaryExpression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 3b09b3a..8fcb37a 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -85,8 +85,8 @@ Expression Sin::d()  const { return   fcn::cos(arg()) ; }
 
 Expression Tan::d()  const { return 1. / ( fcn::cos(arg()) * fcn::cos(arg()) );}
 
-Expression ACos::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ); }
-Expression ASin::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ) ; }
+Expression ACos::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ); }
+Expression ASin::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ) ; }
 Expression ATan::d() const { return 1 / ( 1 + arg()*arg() ); }
 
 Expression ISqrt::d() const { return -1./ ( 2 * Pow( arg() , 1.5 ) ); }
-- 
2.43.0


From d43efa48179af6bd0ac38973b8573770e5e12da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 010/154] fix: evaluating a remainder expression always gives
 zero

---
 src/BinaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryExpression.cpp b/src/BinaryExpression.cpp
index 5fee9f1..e41dcf0 100644
--- a/src/BinaryExpression.cpp
+++ b/src/BinaryExpression.cpp
@@ -37,7 +37,7 @@ complex_t LessThan::operator()()    const { return complex_t(std::real(lval()) <
 complex_t GreaterThanEqualTo::operator()() const { return complex_t(std::real(lval()) >= std::real(rval()) ,0); }
 complex_t LessThanEqualTo::operator()()    const { return complex_t(std::real(lval()) <= std::real(rval()) ,0); }
 complex_t Pow::operator()()         const { return pow( lval(), rval() ); }
-complex_t Fmod::operator()()        const { return 0; }
+complex_t Fmod::operator()()        const { return std::fmod( std::real(lval()), std::real(rval()) ); }
 complex_t Equal::operator()()       const { return lval() == rval() ; } 
 complex_t Or::operator()()          const { return std::real(lval()) || std::real(rval()) ; }
 complex_t ATan2::operator()()       const { return atan2( std::real(lval() ), std::real(rval() ) ); }
-- 
2.43.0


From 890a5bb9a3370b339e426ce4ffe4d8afacda0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 011/154] fix: log-gamma of a negative argument is evaluated at
 its absolute value

The generated code uses the argument itself, so the two disagreed.
---
 src/UnaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 8fcb37a..754adc4 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -32,7 +32,7 @@ DEFINE_UNARY_OPERATOR_NO_RESOLVER( Abs , std::abs )
 
 LGamma::LGamma( const Expression& expression) : IUnaryExpression(expression) {} 
 LGamma::operator Expression() const { return Expression( std::make_shared<LGamma>(*this) ) ; }
-complex_t LGamma::operator()() const { return std::lgamma( std::abs( m_expression() ) ); }
+complex_t LGamma::operator()() const { return std::lgamma( std::real( m_expression() ) ); }
 std::string LGamma::to_string(const ASTResolver* resolver) const {   
   return "std::lgamma(" + m_expression.to_string(resolver) + ")"; 
 }
-- 
2.43.0


From b9624885eb07fc23fad75f92bb1b8d54baf51377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 012/154] fix: parameters that only appear in a function call
 are not resolved

They were written to the generated code as an empty string.
---
 src/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index a9ec469..ec085e0 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -245,7 +245,7 @@ std::string Function::to_string(const ASTResolver* resolver) const {
   for( auto& arg : m_args ) rt += arg.to_string(resolver) + ", ";
   return rt.substr(0,rt.size()-2) + ")";
 }
-void Function::resolve( ASTResolver& resolver ) const {}
+void Function::resolve( ASTResolver& resolver ) const { for( auto& arg : m_args ) arg.resolve( resolver ); }
 
 std::string SubTree::to_string(const ASTResolver* /*resolver*/) const 
 {
-- 
2.43.0


From 0247ff6e29d92782cd87988b4839d5f939578908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 013/154] fix: different lambda expressions of the same type
 are treated as identical

The name that stands for a lambda in comparisons of sub-expressions was only that of its type, so
two lambdas with different captures were merged by simplification and by common sub-expression
elimination. Number them.
---
 AmpGen/Expression.h | 4 +++-
 src/Expression.cpp  | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Expression.h b/AmpGen/Expression.h
index 8ee7101..6bef9e6 100644
--- a/AmpGen/Expression.h
+++ b/AmpGen/Expression.h
@@ -214,13 +214,15 @@ namespace AmpGen
   class LambdaExpression : public IExpression {
     public: 
       template <typename function_type>
-      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>()) {}
+      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>() + "_" + std::to_string( nextID() ) ) {}
       std::string to_string(const ASTResolver* resolver = nullptr) const override; 
       void resolve( ASTResolver& resolver) const override;
       operator Expression() const; 
       complex_t operator()() const override; 
       std::function<double(void)> m_function; 
       std::string m_name; 
+    private: 
+      static size_t nextID();
   }; 
 
   /** @ingroup ExpressionEngine class Ternary 
diff --git a/src/Expression.cpp b/src/Expression.cpp
index ec085e0..4ac1357 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,4 +1,5 @@
 #include <memory.h>
+#include <atomic>
 #include <cmath>
 #include <complex>
 #include <iosfwd>
@@ -352,6 +353,12 @@ std::string LambdaExpression::to_string(const ASTResolver* resolver) const
   return resolver == nullptr ?programatic_name(m_name) : resolver->resolvedParameter(this);
 }
 
+size_t LambdaExpression::nextID()
+{
+  static std::atomic<size_t> counter = {0};
+  return counter++;
+}
+
 complex_t LambdaExpression::operator()() const 
 {
   return m_function();
-- 
2.43.0


From 3f7206c7a35cdaf3c7ada7b9fb80601e19433a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:51 +0000
Subject: [PATCH 014/154] fix: complex_sqrt of a negative constant can be on
 the wrong side of the cut

The imaginary part of a folded constant may be a negative zero, for example that of 2/(-3), in which
case complex_sqrt gave -i sqrt(|x|) instead of the i sqrt(|x|) it gives for everything else.
---
 src/Expression.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index 4ac1357..4cca198 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -309,7 +309,11 @@ Expression AmpGen::fcn::pow( const Expression& expression, const Expression& co
 
 Expression AmpGen::fcn::complex_sqrt( const Expression& expression )
 {
-  if( is<Constant>(expression ) ) return sqrt( expression() );
+  if( is<Constant>(expression ) )
+  {
+    const complex_t value = expression();
+    return sqrt( std::imag(value) == 0 ? complex_t( std::real(value), 0. ) : value ); 
+  }
   auto st = make_cse(expression);
   return Ternary( st > 0, Sqrt(st), 1i*Sqrt(-st) );
 }
-- 
2.43.0


From 9cf2e21ab24e9a3cc2279e1a617b993d4128d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:20 +0000
Subject: [PATCH 015/154] fix: common sub-expressions are identified by a
 32-bit hash

Two different sub-expressions whose strings share a 32-bit FNV1a hash were
merged into one in the generated code. Use the full width of the key.
---
 src/Expression.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index 4cca198..8a4a7f4 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -4,6 +4,7 @@
 #include <complex>
 #include <iosfwd>
 #include <limits>
+#include <functional>
 #include <memory>
 #include <string>
 #include <utility>
@@ -232,7 +233,7 @@ void Ternary::resolve( ASTResolver& resolver ) const
 
 SubTree::SubTree( const Expression& other ) : 
   m_expression( other ),
-  m_key( FNV1a_hash(m_expression.to_string() ) ) {}
+  m_key( std::hash<std::string>{}(m_expression.to_string() ) ) {}
 
 Function::Function( const std::string& name, const std::vector<Expression>& args ) :
   m_name(name),
@@ -264,7 +265,7 @@ Expression AmpGen::make_cse( const Expression& A , bool simplify )
   SubTree cse = SubTree(A);
   if( !simplify ) return Expression(cse);
   auto ordered = Expression( NormalOrderedExpression(A) );
-  cse.setKey( FNV1a_hash(ordered.to_string()) );
+  cse.setKey( std::hash<std::string>{}(ordered.to_string()) );
   return Expression(cse);
 }
 
-- 
2.43.0


From f9d5b81f1c73a9008498ff98bfc23bdd1406de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:40 +0000
Subject: [PATCH 016/154] fix: combining a vector comparison with a scalar one
 selects the wrong branch

A scalar condition was converted to a vector of ones, which is not a mask.
---
 AmpGen/simd/avx2d_types.h | 6 ++++++
 AmpGen/simd/avx2f_types.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/AmpGen/simd/avx2d_types.h b/AmpGen/simd/avx2d_types.h
index 52560c7..7950a18 100644
--- a/AmpGen/simd/avx2d_types.h
+++ b/AmpGen/simd/avx2d_types.h
@@ -69,6 +69,10 @@ namespace AmpGen {
     inline real_v operator^( const real_v& lhs, const real_v& rhs ) { return _mm256_xor_pd( lhs, rhs ); }
     inline real_v operator&&( const real_v& lhs, const real_v& rhs ) { return _mm256_and_pd( lhs, rhs ); }
     inline real_v operator||( const real_v& lhs, const real_v& rhs ) { return _mm256_or_pd( lhs, rhs ); }
+    inline real_v operator&&( const real_v& lhs, const bool& rhs ) { return rhs ? lhs : real_v(0.); }
+    inline real_v operator&&( const bool& lhs, const real_v& rhs ) { return rhs && lhs; }
+    inline real_v operator||( const real_v& lhs, const bool& rhs ) { return rhs ? real_v( _mm256_castsi256_pd( _mm256_set1_epi32( -1 ) ) ) : lhs; }
+    inline real_v operator||( const bool& lhs, const real_v& rhs ) { return rhs || lhs; }
     inline real_v operator!( const real_v& x ) { return x ^ _mm256_castsi256_pd( _mm256_set1_epi32( -1 ) ); }
     inline real_v operator<( const real_v& lhs, const real_v& rhs ) { return _mm256_cmp_pd( lhs, rhs, _CMP_LT_OS ); }
     inline real_v operator>( const real_v& lhs, const real_v& rhs ) { return _mm256_cmp_pd( lhs, rhs, _CMP_GT_OS ); }
@@ -152,6 +156,8 @@ namespace AmpGen {
     inline complex_v select(const real_v& mask, const real_v&   a, const complex_v& b ) { return complex_v( select(mask, a   , b.real()), select(mask, real_v(0.), b.imag()) ); }
     inline complex_v select(const real_v& mask, const complex_v& a, const real_v& b   ) { return complex_v( select(mask, a.real(), b )  , select(mask, a.imag(), real_v(0.)) ); }
     inline complex_v select(const bool& mask   , const complex_v& a, const complex_v& b ) { return mask ? a : b; }
+    inline complex_v select(const bool& mask   , const real_v&    a, const complex_v& b ) { return mask ? complex_v( a, real_v(0.) ) : b; }
+    inline complex_v select(const bool& mask   , const complex_v& a, const real_v&    b ) { return mask ? a : complex_v( b, real_v(0.) ); }
 
 #pragma omp declare reduction(+: real_v: \
 	omp_out = omp_out + omp_in)
diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index 7202250..302b23e 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -62,6 +62,10 @@ namespace AmpGen {
     inline real_v operator^( const real_v& lhs, const real_v& rhs ) { return _mm256_xor_ps( lhs, rhs ); }
     inline real_v operator&&( const real_v& lhs, const real_v& rhs ) { return _mm256_and_ps( lhs, rhs ); }
     inline real_v operator||( const real_v& lhs, const real_v& rhs ) { return _mm256_or_ps( lhs, rhs ); }
+    inline real_v operator&&( const real_v& lhs, const bool& rhs ) { return rhs ? lhs : real_v(0.); }
+    inline real_v operator&&( const bool& lhs, const real_v& rhs ) { return rhs && lhs; }
+    inline real_v operator||( const real_v& lhs, const bool& rhs ) { return rhs ? real_v( _mm256_castsi256_ps( _mm256_set1_epi32( -1 ) ) ) : lhs; }
+    inline real_v operator||( const bool& lhs, const real_v& rhs ) { return rhs || lhs; }
     inline real_v operator!( const real_v& x ) { return x ^ _mm256_castsi256_ps( _mm256_set1_epi32( -1 ) ); }
     inline real_v operator<( const real_v& lhs, const real_v& rhs ) { return _mm256_cmp_ps( lhs, rhs, _CMP_LT_OS ); }
     inline real_v operator>( const real_v& lhs, const real_v& rhs ) { return _mm256_cmp_ps( lhs, rhs, _CMP_GT_OS ); }
@@ -141,6 +145,8 @@ namespace AmpGen {
     inline complex_v select(const real_v& mask, const real_v&   a, const complex_v& b ) { return complex_v( select(mask, a   , b.real()), select(mask, 0.f, b.imag()) ); }
     inline complex_v select(const real_v& mask, const complex_v& a, const real_v& b   ) { return complex_v( select(mask, a.real(), b )  , select(mask, a.imag(), 0.f) ); }
     inline complex_v select(const bool& mask   , const complex_v& a, const complex_v& b ) { return mask ? a : b; }
+    inline complex_v select(const bool& mask   , const real_v&    a, const complex_v& b ) { return mask ? complex_v( a, real_v(0.) ) : b; }
+    inline complex_v select(const bool& mask   , const complex_v& a, const real_v&    b ) { return mask ? a : complex_v( b, real_v(0.) ); }
     #pragma omp declare reduction(+: real_v: \
 	omp_out = omp_out + omp_in)
     #pragma omp declare reduction(+: complex_v: \
-- 
2.43.0


From abad02d66261bd7210488ec5088ec8b06a6ae577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:47 +0000
Subject: [PATCH 017/154] fix: converting a real vector to a complex one leaves
 the imaginary part uninitialised

---
 AmpGen/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..682e254 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -14,7 +14,7 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From afa7f8001025f5c0c205a4c25583e098021c992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:47 +0000
Subject: [PATCH 018/154] fix: vector square root of a negative real number is
 on the wrong side of the cut

sign(0) was -1, so that sqrt(-1+0i) gave -i instead of i.
---
 AmpGen/simd/avx2d_types.h | 2 +-
 AmpGen/simd/avx2f_types.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/simd/avx2d_types.h b/AmpGen/simd/avx2d_types.h
index 7950a18..4771310 100644
--- a/AmpGen/simd/avx2d_types.h
+++ b/AmpGen/simd/avx2d_types.h
@@ -122,7 +122,7 @@ namespace AmpGen {
 
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_pd( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; }
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v < 0., -1., +1. ); }
     inline real_v conj( const real_v& v ) { return v; }
     
     inline real_v atan2( const real_v& y, const real_v& x ){
diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index 302b23e..c2034ad 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -108,7 +108,7 @@ namespace AmpGen {
     inline real_v abs   ( const real_v& v ) { return v & _mm256_castsi256_ps( _mm256_set1_epi32( 0x7FFFFFFF ) ); }
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_ps( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; } 
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v < 0., -1., +1. ); }
     inline real_v fmadd ( const real_v& a, const real_v& b, const real_v& c ) { return _mm256_fmadd_ps(a, b, c); }
     inline real_v remainder( const real_v& a, const real_v& b ){ return a - real_v(_mm256_round_ps(a/b, _MM_FROUND_TO_NEG_INF)) * b; }
     inline real_v atan2( const real_v& y, const real_v& x ){ 
-- 
2.43.0


From 726f887353383c76b04bd294bab13c6a91aaae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:47 +0000
Subject: [PATCH 019/154] fix: gathering with single precision vectors rounds
 the offset to the nearest integer

The double precision version and the scalar code use the integer part.
---
 AmpGen/simd/avx2f_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index c2034ad..0e7128b 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -49,7 +49,7 @@ namespace AmpGen {
       inline real_v operator-=(const real_v& rhs ); 
       inline real_v operator*=(const real_v& rhs ); 
       inline real_v operator/=(const real_v& rhs ); 
-      inline __m256i to_int() const { return _mm256_cvtps_epi32(data); }
+      inline __m256i to_int() const { return _mm256_cvtps_epi32(_mm256_floor_ps(data)); }
     };
     
     inline real_v operator+( const real_v& lhs, const real_v& rhs ) { return _mm256_add_ps(lhs, rhs); }
-- 
2.43.0


From ec7550244ee4d7de7e37889ebf19fee346613c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:56 +0000
Subject: [PATCH 020/154] fix: spin of half-integer particles is printed as
 (2J/2)/2

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 4558301..d0fd652 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -53,7 +53,7 @@ std::string ParticleProperties::J() const
 {
   if( m_twoSpin == -1 ) return "?";
   if( m_twoSpin % 2 == 0 ) return std::to_string( int(m_twoSpin/2) );
-  if( m_twoSpin % 2 == 1 ) return std::to_string( int(m_twoSpin/2) ) + "/2";
+  if( m_twoSpin % 2 == 1 ) return std::to_string( m_twoSpin ) + "/2";
   return "";
 }
 
-- 
2.43.0


From 48bb3cc5f2f4a61d940b630b5fff67b375b4ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:56 +0000
Subject: [PATCH 021/154] fix: antiparticle flag of user-defined particles is
 not initialised

---
 AmpGen/ParticleProperties.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 9e1a9ad..705c52f 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -98,10 +98,10 @@ namespace AmpGen
       std::string m_name{""};            ///< particle name
       std::string m_texName{""};         ///< latex label of particle
       std::string m_chargeString{""};    ///< string for particle charge
-      char m_Aformat;                    ///< anti-particle format character
-      char m_status;                     ///< status (estalished or not etc)
+      char m_Aformat{' '};               ///< anti-particle format character
+      char m_status{' '};                ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
-      bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
+      bool m_isValid{false};                ///< Flag to check whether the ParticleProperties have configured correctly 
       bool m_customName = {false};       ///< Flag to make custom name 
       void antiQuarks();
       void antiCharge();
-- 
2.43.0


From 5c0b9d89a86441a967f7a1dee4a1ff2649cf64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:56 +0000
Subject: [PATCH 022/154] fix: particle properties with an unpaired key are
 read past the end of the line

---
 src/ParticlePropertiesList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 78d5c74..66f3776 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -195,8 +195,11 @@ void ParticlePropertiesList::makeAlias( const std::string& name, const std::stri
 void ParticlePropertiesList::addParticle( const std::vector<std::string>& tokens )
 {
   INFO( vectorToString(tokens, " ") );
+  if( tokens.size() < 2 || tokens.size() % 2 != 0 ){
+    ERROR("Expecting properties as set of key value pairs"); 
+    return; 
+  }
   auto name = tokens[1];
-  if( tokens.size() % 2 != 0 ) ERROR("Expecting properties as set of key value pairs"); 
   ParticleProperties* pp = nullptr; 
   if( m_byName.find( name ) != m_byName.end() )
   {
-- 
2.43.0


From 1c8905463061f51880e230942fe2404b26017b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 023/154] fix: importing a particle table leaves the lookup
 tables pointing at freed memory

The imported particles were also not found under their name or number.
---
 AmpGen/ParticlePropertiesList.h | 7 ++++---
 src/OptionsParser.cpp           | 2 +-
 src/ParticlePropertiesList.cpp  | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/AmpGen/ParticlePropertiesList.h b/AmpGen/ParticlePropertiesList.h
index c17af33..fc5a776 100644
--- a/AmpGen/ParticlePropertiesList.h
+++ b/AmpGen/ParticlePropertiesList.h
@@ -4,6 +4,7 @@
 // status:  Mon 9 Feb 2009 19:18:04 GMT
 
 #include <iostream>
+#include <deque>
 #include <map>
 #include <string>
 #include <utility>
@@ -18,7 +19,7 @@ namespace AmpGen
     static ParticlePropertiesList* ptr;
     std::map<int, std::pair<std::string, std::string>> m_latexLabels;
     std::string m_fname;
-    std::vector<ParticleProperties> m_theList;
+    std::deque<ParticleProperties> m_theList;
     std::map<std::string, ParticleProperties*> m_byName;
     std::map<int, ParticleProperties*> m_byID;
     double m_quasiStableThreshold;
@@ -42,8 +43,8 @@ namespace AmpGen
     std::vector<std::string> getParticleNames() const;
     std::vector<int> getParticleIds() const;
     
-    std::vector<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
-    std::vector<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
+    std::deque<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
+    std::deque<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
     void print( std::ostream& out = std::cout ) const;
     bool readLatexLabels( const std::string& name );
     void makeMappings();
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..1555ce3 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -17,7 +17,7 @@ OptionsParser::OptionsParser()
   m_keywords["Import"]                         = [this](const auto& tokens){ if( tokens.size() != 2) return; this->import(expandGlobals(tokens[1] ) ) ; };
   m_keywords["ParticleProperties"]             = [this](const auto& tokens){ ParticlePropertiesList::getMutable()->addParticle( tokens ); };
   m_keywords["ParticlePropertiesList::Alias"]  = [this](const auto& tokens){ if( tokens.size() != 3) return; ParticlePropertiesList::getMutable()->makeAlias( tokens[1], tokens[2] ); };
-  m_keywords["ParticlePropertiesList::Import"] = [this](const auto& tokens){ if( tokens.size() != 2) return; ParticlePropertiesList::getMutable()->readFile( tokens[1] ); }; 
+  m_keywords["ParticlePropertiesList::Import"] = [this](const auto& tokens){ if( tokens.size() != 2) return; ParticlePropertiesList::getMutable()->readFile( tokens[1] ); ParticlePropertiesList::getMutable()->makeMappings(); }; 
 }
 
 OptionsParser* OptionsParser::getMe()
diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 66f3776..74f292c 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -122,7 +122,7 @@ void ParticlePropertiesList::makeMappings()
     m_byName[it.name()] = &it;
     if ( it.pdgID() != 0 ) {
       auto found = m_byID.find( it.pdgID() );
-      if ( found != m_byID.end() ) {
+      if ( found != m_byID.end() && found->second != &it ) {
         WARNING( "pdgID " << it.pdgID() << " used twice, here: " << ( found->second )->name()
                            << ", and here: " << it.name() );
       }
-- 
2.43.0


From edcef8b27b2c4822c5d1922fedbf9c026cbeae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:07 +0000
Subject: [PATCH 024/154] fix: printing a decay without an allowed orbital
 state reads past the orbital names

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index e6e71b7..0facf4b 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -283,7 +283,7 @@ std::string Particle::orbitalString() const
 {
   if( m_vertexName != "" ) return m_vertexName; 
   constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
-  std::string rt = std::string(1, orbitals[m_orbital] ); 
+  std::string rt = m_orbital < orbitals.size() ? std::string(1, orbitals[m_orbital] ) : ""; 
   if( m_spinConfigurationNumber != 0 ){ 
     if( m_spinConfigurationNumber < 10 ) rt += std::to_string( m_spinConfigurationNumber  );
     else rt += char(m_spinConfigurationNumber-10);
-- 
2.43.0


From 215e4170ab1997bb75040ac131f4eddb711f4e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:45 +0000
Subject: [PATCH 025/154] fix: particles without a PDG number are conjugated to
 an unrelated particle

---
 src/Particle.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 0facf4b..9ab3609 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -680,10 +680,16 @@ void Particle::sortDaughters()
   m_uniqueString = makeUniqueString();
 }
 
+/// Particles without a PDG number can only be identified by their name
+static const ParticleProperties* antiParticle( const ParticleProperties* props )
+{
+  if( ! props->hasDistinctAnti() ) return props; 
+  return props->pdgID() != 0 ? ParticlePropertiesList::get( -props->pdgID() ) : ParticlePropertiesList::get( props->anti().name() );
+}
+
 void Particle::conjThis()
 {
-  if( m_props->hasDistinctAnti() ) 
-    m_props = ParticlePropertiesList::get( -m_props->pdgID(), false);
+  m_props = antiParticle( m_props );
   for(unsigned i = 0 ; i != m_daughters.size(); ++i) m_daughters[i]->conjThis(); 
 }
 
@@ -691,7 +697,7 @@ Particle Particle::conj( bool invertHead , bool reorder )
 {
   Particle cp(*this);
   cp.clearDecayProducts();
-  const ParticleProperties* p = ( !isHead() || invertHead ) && m_props->hasDistinctAnti() ? ParticlePropertiesList::get( -m_props->pdgID() ) : m_props;
+  const ParticleProperties* p = ( !isHead() || invertHead ) ? antiParticle( m_props ) : m_props;
   cp.setName( p->name() );
   for( auto& d : m_daughters ) cp.addDaughter( std::make_shared<Particle>(d->conj(invertHead,reorder)) );
   if( reorder ) cp.sortDaughters();
-- 
2.43.0


From 8948ef953e46629a063624f38dde37e4bbeac28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:45 +0000
Subject: [PATCH 026/154] fix: a lineshape set on a decay is not part of its
 descriptor

---
 src/Particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 9ab3609..9501915 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -750,6 +750,7 @@ void Particle::setOrbital( const unsigned int& orbital )
 void Particle::setLineshape( const std::string& lineshape )
 {
   m_lineshape    = lineshape;
+  m_usesDefaultLineshape = false;
   m_uniqueString = makeUniqueString();
 }
 
-- 
2.43.0


From 7610caa22f5010a0ffceb98a69c6ada9d3f8d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:25 +0000
Subject: [PATCH 027/154] fix: orbital states are offered for decays that
 cannot conserve angular momentum

---
 src/Particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 9501915..2cd6d91 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -607,6 +607,7 @@ std::pair<size_t, size_t> Particle::orbitalRange( const bool& conserveParity ) c
   const int S  = m_props->twoSpin();
   const int s1 = daughter(0)->props()->twoSpin();
   const int s2 = daughter(1)->props()->twoSpin();
+  if( ( S + s1 + s2 ) % 2 != 0 ) return {999, 999}; // (half) integer spin cannot be conserved for any L
     
   int min_s12 = std::abs( s1 - s2 );
   int max_s12 = std::abs( s1 + s2 );
-- 
2.43.0


From e7f0fa93be2d284657cac98f78b62bacd5f540ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:54 +0000
Subject: [PATCH 028/154] fix: the charged pi(1) and Z(c) states of the
 particle tables have no antiparticles

---
 options/MintDalitzSpecialParticles.csv | 2 +-
 options/mass_width.csv                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/options/MintDalitzSpecialParticles.csv b/options/MintDalitzSpecialParticles.csv
index e2eeaee..8ef8c22 100644
--- a/options/MintDalitzSpecialParticles.csv
+++ b/options/MintDalitzSpecialParticles.csv
@@ -49,7 +49,7 @@
 1.272E+03     ,7.0E+00,7.0E+00,9.0E+01     ,2.0E+01,2.0E+01,1/2, ,1   ,+, ,F, 998201,   +, ,R,Kb               ,uS              
 1.86484E+03   ,1.7E-01,1.7E-01,1.605E-09   ,6.0E-12,6.0E-12,1/2, ,0   ,-, ,F, 998421,   0, ,R,D~               ,cU              
 3.8948E+03    ,1.1E-02,1.1E-02,2.96E+00    ,2.1E-03,2.1E-03,1  ,+,1   ,+,-, , 999443,   0, ,R,Z(c)(3900)       ,cCuU
-3.8948E+03    ,1.1E-02,1.1E-02,2.96E+00    ,2.1E-03,2.1E-03,1  ,+,1   ,+,-, , 999444,   +, ,R,Z(c)(3900)       ,cCuD
+3.8948E+03    ,1.1E-02,1.1E-02,2.96E+00    ,2.1E-03,2.1E-03,1  ,+,1   ,+,-,B, 999444,   +, ,R,Z(c)(3900)       ,cCuD
 9.990E+03     ,1.0E+01,1.0E+01,9.9E+09     ,3.0E+01,3.0E+01,1  , ,1/2 ,-, ,F,       ,   0,3,R,LambdaEta        ,uds
 9.990E+03     ,1.0E+01,1.0E+01,9.9E+09     ,3.0E+01,3.0E+01,1/2, ,1/2 ,-, ,F,       ,   -,3,R,XiPi             ,dss
 9.990E+03     ,1.0E+01,1.0E+01,9.9E+09     ,3.0E+01,3.0E+01,1/2, ,1/2 ,-, ,F,       ,   0,3,R,XiPi             ,uss
diff --git a/options/mass_width.csv b/options/mass_width.csv
index c0a1762..1cd6044 100644
--- a/options/mass_width.csv
+++ b/options/mass_width.csv
@@ -139,7 +139,7 @@
 1.3183E+03    ,6.0E-01,6.0E-01,1.07E+02    ,5.0E+00,5.0E+00,1  ,-,2   ,+,+, ,    115,   0, ,R,a(2)(1320)       ,(uU-dD)/sqrt(2) 
 1.35E+03      ,1.5E+02,1.5E+02,3.5E+02     ,1.5E+02,1.5E+02,0  ,+,0   ,+,+, ,  30221,   0, ,R,f(0)(1370)       ,x(uU+dD)+y(sS)  
 1.386E+03     ,1.9E+01,1.9E+01,9.1E+01     ,3.0E+01,3.0E+01,?  ,-,1   ,+,-, ,  10333,   0, ,S,h(1)(1380)       ,x(uU+dD)+y(sS)  
-1.351E+03     ,3.0E+01,3.0E+01,3.1E+02     ,4.0E+01,4.0E+01,1  ,-,1   ,-, , ,9000213,   +, ,R,pi(1)(1400)      ,Maybe non-qQ    
+1.351E+03     ,3.0E+01,3.0E+01,3.1E+02     ,4.0E+01,4.0E+01,1  ,-,1   ,-, ,B,9000213,   +, ,R,pi(1)(1400)      ,Maybe non-qQ    
 1.351E+03     ,3.0E+01,3.0E+01,3.1E+02     ,4.0E+01,4.0E+01,1  ,-,1   ,-,+, ,9000113,   0, ,R,pi(1)(1400)      ,Maybe non-qQ    
 1.4098E+03    ,2.5E+00,2.5E+00,5.11E+01    ,3.4E+00,3.4E+00,0  ,+,0   ,-,+, ,9020221,   0, ,R,eta(1405)        ,x(uU+dD)+y(sS)  
 1.4264E+03    ,9.0E-01,9.0E-01,5.49E+01    ,2.6E+00,2.6E+00,0  ,+,1   ,+,+, ,  20333,   0, ,R,f(1)(1420)       ,x(uU+dD)+y(sS)  
@@ -156,7 +156,7 @@
 1.562E+03     ,1.3E+01,1.3E+01,1.34E+02    ,8.0E+00,8.0E+00,0  ,+,2   ,+,+, ,9010225,   0, ,S,f(2)(1565)       ,x(uU+dD)+y(sS)  
 1.57E+03      ,7.0E+01,7.0E+01,1.4E+02     ,9.0E+01,9.0E+01,1  ,+,1   ,-,-, ,       ,   0, ,S,rho(1570)        ,x(uU+dD)+y(sS)  
 1.594E+03     ,1.8E+01,6.2E+01,3.8E+02     ,9.0E+01,1.2E+02,0  ,-,1   ,+,-, ,9010223,   0, ,S,h(1)(1595)       ,x(uU+dD)+y(sS)  
-1.662E+03     ,1.5E+01,1.1E+01,2.3E+02     ,5.0E+01,5.0E+01,1  ,-,1   ,-, , ,9010213,   +, ,R,pi(1)(1600)      ,Maybe non-qQ    
+1.662E+03     ,1.5E+01,1.1E+01,2.3E+02     ,5.0E+01,5.0E+01,1  ,-,1   ,-, ,B,9010213,   +, ,R,pi(1)(1600)      ,Maybe non-qQ    
 1.662E+03     ,1.5E+01,1.1E+01,2.3E+02     ,5.0E+01,5.0E+01,1  ,-,1   ,-,+, ,9010113,   0, ,R,pi(1)(1600)      ,Maybe non-qQ    
 1.647E+03     ,2.2E+01,2.2E+01,2.54E+02    ,2.7E+01,2.7E+01,1  ,-,1   ,+, ,B,9020213,   +, ,S,a(1)(1640)       ,uD              
 1.647E+03     ,2.2E+01,2.2E+01,2.54E+02    ,2.7E+01,2.7E+01,1  ,-,1   ,+,+, ,9020113,   0, ,S,a(1)(1640)       ,(uU-dD)/sqrt(2) 
-- 
2.43.0


From b6a3046a2120f0efee69b8c2223804bbde539d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 029/154] fix: a particle constructed with an index has no name

---
 src/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 2cd6d91..f78311a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -67,7 +67,8 @@ Particle::Particle(const std::string& name, const std::vector<Particle>& particl
 
 
 Particle::Particle( const std::string& name, const unsigned int& index ) :
-  m_props{ParticlePropertiesList::get( name )}
+  m_name{name}
+  , m_props{ParticlePropertiesList::get( name )}
   , m_index{index}
 {
   pdgLookup();
-- 
2.43.0


From c30c06928559864f84c8905a7859dfa5dc917c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 030/154] fix: decays that conserve flavour are reported as
 weak

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index f78311a..4cfa91c 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -782,7 +782,7 @@ std::string Particle::topologicalString() const
 
 const ParticleProperties* Particle::props() const { return m_props; }
 bool Particle::isHead() const { return m_parent == nullptr; }
-bool Particle::isWeakDecay() const { return m_name.find("NonRes") == std::string::npos or quarks() != daughterQuarks(); }
+bool Particle::isWeakDecay() const { return m_name.find("NonRes") == std::string::npos and quarks() != daughterQuarks(); }
 bool Particle::isStateGood() const { return m_isStateGood; }
 bool Particle::isStable() const { return m_daughters.size() == 0; }
 
-- 
2.43.0


From cfb4921dbf689a3dce7bd1c33389919006be4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 031/154] fix: replacing text skips or repeats occurrences when
 the lengths differ

---
 src/Utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..d488b32 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -108,7 +108,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
 {
   size_t pos         = 0;
   std::string output = input;
-  if ( toReplace == replaceWith ) {
+  if ( toReplace.empty() || toReplace == replaceWith ) {
     ERROR( "This will lead to infinite loop and not do anything!" );
     return input;
   }
@@ -117,7 +117,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
     pos = output.find( toReplace, start_pos );
     if ( pos != std::string::npos ) {
       output.replace( pos, toReplace.length(), replaceWith );
-      start_pos = pos + toReplace.length();
+      start_pos = pos + replaceWith.length();
     }
   } while ( pos != std::string::npos );
   return output;
-- 
2.43.0


From 96706fe4aa96d3a9e606d4702a4aaaa919a2ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 032/154] fix: wildcards only match the first occurrence of
 what follows them

---
 src/Utilities.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index d488b32..1eddc1c 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -216,26 +216,22 @@ std::string AmpGen::numberWithError( const double& number, const double& error,
 bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string& wildcard_string,
     const char wildcard_character )
 {
-  auto pos = wildcard_string.find( wildcard_character ); /// TEST_foobar -> *_foobar
-  if ( wildcard_string.size() == 1 && wildcard_string[0] == wildcard_character ) {
-    return true;
+  size_t i = 0, w = 0;                          /// current position in the input and in the pattern
+  size_t last_wildcard = std::string::npos;     /// most recent wildcard, and where in the input it stops
+  size_t resume = 0;
+  while ( i < input.size() ) {
+    if ( w < wildcard_string.size() && wildcard_string[w] == wildcard_character ) { /// TEST_foobar -> *_foobar
+      last_wildcard = w++;
+      resume        = i;
+    } else if ( w < wildcard_string.size() && wildcard_string[w] == input[i] ) {
+      ++w;
+      ++i;
+    } else if ( last_wildcard != std::string::npos ) { /// the wildcard has to match one more character
+      w = last_wildcard + 1;
+      i = ++resume;
+    } else return false;
   }
-  if ( pos == std::string::npos ) {
-    return input == wildcard_string;
-  }
-  if ( pos == wildcard_string.size() - 1 ) {
-    return input.find( wildcard_string.substr( 0, wildcard_string.size() - 1 ) ) == 0;
-  } else {
-    const std::string pattern1 = wildcard_string.substr( 0, pos + 1 );
-    const std::string pattern2 = wildcard_string.substr( pos + 1 );
-    bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
-    if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
-  }
-  return false;
+  return wildcard_string.find_first_not_of( wildcard_character, w ) == std::string::npos;
 }
 
 unsigned int AmpGen::FNV1a_hash( const std::string& toHash )
-- 
2.43.0


From 8ad8ae80a882d68de420b7c726242159f83998d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 033/154] fix: expanding ${VARIABLE} removes the character
 after the brace

---
 src/Utilities.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1eddc1c..c57bd93 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -331,19 +331,23 @@ std::string AmpGen::ltrim( std::string s )
 std::string AmpGen::expandGlobals( std::string path )
 {
   size_t pos;
+  size_t start_pos = 0; 
   do {
-    pos = path.find( "$" );
+    pos = path.find( "$", start_pos );
     if ( pos == std::string::npos ) break;
     size_t end_pos; // = std::string::npos;
     std::string variable_name;
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
+      if( end_pos == std::string::npos ){
+        ERROR("Unmatched braces in path: " << path );
+        break;
+      }
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-      end_pos--;
+      if( end_pos != std::string::npos ) end_pos--;
     }
     const char* global_var = getenv( variable_name.c_str() );
     if ( variable_name == "AMPGENROOT" && global_var == nullptr )
@@ -357,6 +361,7 @@ std::string AmpGen::expandGlobals( std::string path )
     std::string old_path = path;
     size_t len           = end_pos == std::string::npos ? path.length() - pos + 1 : end_pos - pos + 1;
     path                 = path.replace( pos, len, global_var );
+    start_pos            = pos + std::string( global_var ).length();
   } while ( pos != std::string::npos );
 
   return path;
-- 
2.43.0


From 86b0d8fb231ddec7455d2af87f63923dda4760e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 034/154] fix: extracting items from text whose braces close
 before they open dereferences an empty list

---
 src/Utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index c57bd93..6886777 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -160,6 +160,10 @@ std::vector<std::string> AmpGen::getItems( const std::string& tree,
       break;
     }
   }
+  if ( matched_braces.size() == 0 ) {
+    ERROR( "Unmatched braces in expression: " << tree );
+    return std::vector<std::string>();
+  }
   auto commas = findAll( tree, seperator ); //// commas delimit separate decays;
   std::vector<std::string> daughterTrees;
   size_t begin_position = matched_braces.begin()->first + 1;
-- 
2.43.0


From d99d67ecb877275b57b76152bd456f5a3ea090a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 035/154] fix: exchange parity of a permutation does not depend
 on the length of its cycles

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 6886777..5bf5e34 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -513,7 +513,7 @@ std::pair<size_t,int> AmpGen::minSwaps(const std::vector<size_t>& indices, const
       cycle_size++; 
     } 
     if( cycle_size > 0 ){
-      netExchangeParity *= exchangeParities[i]; 
+      if( cycle_size % 2 == 0 ) netExchangeParity *= exchangeParities[i]; 
       ans += (cycle_size - 1); 
     }
   } 
-- 
2.43.0


From 0cc3915e3b9967ac27e9a0662156c7893d1dee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 036/154] fix: empty and out of range text is accepted as a
 number

---
 src/Utilities.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 5bf5e34..d9812c7 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <algorithm>
+#include <cerrno>
 #include <cctype>
 #include <cmath>
 #include <fstream>
@@ -425,7 +426,7 @@ double AmpGen::lexical_cast<double>( const std::string& word, bool& status )
 {
   char* p;
   auto number = strtod( word.c_str(), &p );
-  status &= *p == 0;
+  status &= p != word.c_str() && *p == 0;
   return number;
 }
 
@@ -434,7 +435,7 @@ int AmpGen::lexical_cast<int>( const std::string& word, bool& status )
 {
   char* p;
   auto number = strtol( word.c_str(), &p, 10 );
-  status &= *p == 0;
+  status &= p != word.c_str() && *p == 0 && number == int(number);
   return number;
 }
   template <>
@@ -442,7 +443,7 @@ unsigned int AmpGen::lexical_cast<unsigned int>( const std::string& word, bool&
 {
   char* p;
   auto number = strtoul( word.c_str(), &p, 10 );
-  status &= *p == 0;
+  status &= p != word.c_str() && *p == 0 && number == (unsigned int)(number) && word.find('-') == std::string::npos;
   return number;
 }
 
@@ -457,7 +458,7 @@ float AmpGen::lexical_cast<float>( const std::string& word, bool& status )
 {
   char* p;
   auto number = strtof( word.c_str(), &p );
-  status &= *p == 0;
+  status &= p != word.c_str() && *p == 0;
   return number;
 }
 
@@ -479,8 +480,9 @@ bool AmpGen::lexical_cast<bool>( const std::string& word, bool& status )
 long int AmpGen::lexical_cast<long int>( const std::string& word, bool& status )
 {
   char* p;
+  errno = 0;
   auto number = strtol( word.c_str(), &p, 10 );
-  status &= *p == 0;
+  status &= p != word.c_str() && *p == 0 && errno != ERANGE;
   return number;
 }
 
@@ -488,8 +490,9 @@ long int AmpGen::lexical_cast<long int>( const std::string& word, bool& status )
 unsigned long int AmpGen::lexical_cast<unsigned long int>( const std::string& word, bool& status )
 {
   char* p;
+  errno = 0;
   auto number = strtoul( word.c_str(), &p, 10 );
-  status &= *p == 0;
+  status &= p != word.c_str() && *p == 0 && errno != ERANGE && word.find('-') == std::string::npos;
   return number;
 }
 
-- 
2.43.0


From 7707e0f7bb302ad75e233f2de61257d9b6188e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 037/154] fix: reading a file as a list of lines always skips
 those starting with a hash

---
 AmpGen/Utilities.h | 3 +--
 src/Utilities.cpp  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index e34f5c9..319a414 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -116,8 +116,7 @@ namespace AmpGen {
     {
       std::string tmp;
       std::ifstream inFile( filename.c_str() );
-      while ( inFile.good() ) {
-        std::getline( inFile, tmp );
+      while ( std::getline( inFile, tmp ) ) {
         tmp.erase( std::remove_if( tmp.begin(), tmp.end(), [](const char c){ return c == '\r'; }), tmp.end() );
         if ( ignoreLinesThatBeginWith != '\0' && ( tmp.size() == 0 || tmp[0] == ignoreLinesThatBeginWith ) ) continue;
         toDo( tmp );
diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index d9812c7..8563994 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -19,7 +19,7 @@
 std::vector<std::string> AmpGen::vectorFromFile( const std::string& filename, const char ignoreLinesThatBeginWith )
 {
   std::vector<std::string> output;
-  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);} ); 
+  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);}, ignoreLinesThatBeginWith ); 
   return output;
 }
 
-- 
2.43.0


From 09e2cecffc43ecd1bed01f217d39905d10bcf690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 038/154] fix: splitting text loses an empty last field

---
 src/Utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 8563994..48d8d7c 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -31,6 +31,7 @@ std::vector<std::string> AmpGen::split( const std::string& s, char delim, bool i
   while ( std::getline( ss, item, delim ) ) {
     if ( !ignoreWhitespace || ( item != " " && item != "" && item != "\n" && item != "\t" ) ) elems.push_back( item );
   }
+  if ( !ignoreWhitespace && !s.empty() && s.back() == delim ) elems.push_back( "" );
   return elems;
 }
 
-- 
2.43.0


From 329b93459855eddd1b6bc0b146b26e08bcad255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 039/154] fix: parallel sort with a grain size below two never
 ends

---
 AmpGen/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index 319a414..6e4c1c9 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -135,7 +135,7 @@ namespace AmpGen {
           const size_t& grainsize)
       {
         const size_t len   = end - begin; 
-        if(len < grainsize) std::sort(begin, end, comp);
+        if(len < 2 || len < grainsize) std::sort(begin, end, comp);
         else
         {
           const auto  middle = begin + len/2;
-- 
2.43.0


From 79dbffe812fdb92acb042fe4b2bf9dae472f183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 040/154] fix: combinations of more elements than there are
 write out of bounds

---
 AmpGen/Utilities.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index 6e4c1c9..4bf7ace 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -47,6 +47,7 @@ namespace AmpGen {
     {
       std::vector<bool> mask( n );
       std::vector<std::vector<T>> combinations;
+      if( r > n ) return combinations; 
       std::fill( mask.begin() + r, mask.end(), true );
       do {
         std::vector<T> perm;
-- 
2.43.0


From 73648f66126e5e4816ad8ddb401973c74c7f9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 041/154] fix: numbers that do not name an enumerator are
 accepted as one

---
 AmpGen/enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/enum.h b/AmpGen/enum.h
index b6529ee..96534f4 100644
--- a/AmpGen/enum.h
+++ b/AmpGen/enum.h
@@ -32,7 +32,7 @@ namespace AmpGen {
     {
       char* p;                                                 
       auto number = strtoul( word.c_str(), &p, 10 );           
-      if( *p == 0 ) return T(number);
+      if( *p == 0 && p != word.c_str() ) return number < (unsigned long)(T::Invalid) ? T(number) : T::Invalid;
       unsigned counter = 0;
       unsigned begin = 0;
       unsigned end   = 0;
-- 
2.43.0


From 3dc3492ce0d6a6e6062d67d1397e2f8583d5c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 042/154] fix: a comment directly after a value removes the
 value

---
 src/OptionsParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 1555ce3..b39dcab 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -137,7 +137,10 @@ std::vector<std::string> OptionsParser::makeParsedStrings( const std::string& li
   std::vector<std::string> fillThisList;
 
   for ( std::string::const_iterator it = s.begin(); it != s.end(); ++it ) {
-    if ( !insideQuotes && *it == '#' ) break; /// indicates a comment, except in speech marks ///
+    if ( !insideQuotes && *it == '#' ) { /// indicates a comment, except in speech marks ///
+      if ( !prevBlank ) fillThisList.emplace_back( prev, it );
+      break;
+    }
     if ( ( ( !insideQuotes ) && std::isblank( *it ) ) || *it == '"' || ignore ) {
       if ( !prevBlank ) {
         std::string tmp_s( prev, it );
-- 
2.43.0


From 4ca908684c6172d4745a7a4e3462e9a5931b62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 043/154] fix: an option without any token is read out of
 bounds

---
 src/OptionsParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index b39dcab..791ad2c 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -115,6 +115,7 @@ void OptionsParser::addArg( const std::string& arg )
 
 void OptionsParser::addArg( const std::vector<std::string>& tokens )
 {
+  if( tokens.size() == 0 ) return;
   const auto& key = tokens[0];
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
-- 
2.43.0


From 0039af83267b9d01353bf02ce11dac62c9bfb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 044/154] fix: unmatched braces in an options file silently
 discard the remaining options

---
 src/OptionsParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 791ad2c..bacb4da 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -105,6 +105,7 @@ void OptionsParser::import( const std::string& fName )
     this->addArg( currentTokens );
     currentTokens.clear();
   } );
+  if( currentTokens.size() != 0 ) ERROR("Unmatched braces in " << fName << ", option not read: " << currentTokens[0] );
 }
 
 void OptionsParser::addArg( const std::string& arg )
-- 
2.43.0


From bf6b43bb2d8a7f2ef77218dd2f65db47fac0584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 045/154] fix: options given twice are listed twice

---
 src/OptionsParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index bacb4da..fc7bfc6 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -121,8 +121,8 @@ void OptionsParser::addArg( const std::vector<std::string>& tokens )
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
   else { 
+    if( m_parsedLines.count(key) == 0 ) m_orderedKeys.push_back(key); 
     m_parsedLines[key] = tokens; 
-    m_orderedKeys.push_back(key); 
   }
 }
 
-- 
2.43.0


From e386da511415e2ddc597d784f202a0d942592469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 046/154] fix: command line values containing two dashes are
 treated as options

---
 src/OptionsParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index fc7bfc6..9cd1821 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -54,7 +54,7 @@ void OptionsParser::setCommandLineArgs( int argc, char** argv, const std::string
   int x = 0;
   while ( ++x < argc ) {
     std::string token = std::string( argv[x] );
-    if ( token.find( "--" ) == std::string::npos ){
+    if ( token.find( "--" ) != 0 ){
       import( token );   
       continue;
     }
@@ -66,7 +66,7 @@ void OptionsParser::setCommandLineArgs( int argc, char** argv, const std::string
       val = token.substr( pos + 1 );
     } else if ( x != argc - 1 ) {
       auto token2                                         = std::string( argv[x+1] );
-      if ( token2.find( "--" ) == std::string::npos ){
+      if ( token2.find( "--" ) != 0 ){
         val = token2;
         x++;
       }
-- 
2.43.0


From d7a8a708e124fac4896e71bdca1abe52e2789c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:24 +0000
Subject: [PATCH 047/154] fix: parameters constructed without a flag have
 uninitialised values

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From d28b47c4ab9aa040400dd287db4a4d9db22095b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:24 +0000
Subject: [PATCH 048/154] fix: a parameter whose name is taken is added to the
 set regardless

---
 src/MinuitParameterSet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..1460f81 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,12 +31,12 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
   DEBUG( "Adding: " << parPtr->name() ); 
+  m_parameters.push_back( parPtr );
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
 }
@@ -44,7 +44,8 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 MinuitParameter* MinuitParameterSet::add( const std::string& name, const Flag& flag, const double& mean,
     const double& sigma, const double& min, const double& max )
 {
-  addToEnd( new MinuitParameter( name, Flag(flag), mean, sigma, min, max ) );
+  auto param = new MinuitParameter( name, Flag(flag), mean, sigma, min, max );
+  if( ! addToEnd( param ) ) delete param;
   return m_keyAccess[name];
 }
 
-- 
2.43.0


From afba3bcba874d85bc13802e0d702c4404f1bdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:24 +0000
Subject: [PATCH 049/154] fix: a removed parameter can still be found by its
 name

---
 src/MinuitParameterSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 1460f81..9f67265 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -58,6 +58,7 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  m_keyAccess.erase( parPtr->name() );
   return true;
 }
 
-- 
2.43.0


From ee00da2b3ae547356df1ff5da8283e423288d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:24 +0000
Subject: [PATCH 050/154] fix: looking up a parameter that does not exist
 dereferences an invalid pointer

---
 src/MinuitParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 9f67265..8229170 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -84,6 +84,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -93,6 +94,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -259,7 +261,7 @@ MinuitParameter* MinuitParameterSet::find( const std::string& key ) const
 double MinuitParameterSet::operator()( const std::string& name )
 {
   if ( m_keyAccess.find(name) == m_keyAccess.end() ) {
-    ERROR( "Cannot find parameter " << name );
+    FATAL( "Cannot find parameter " << name );
   }
   return m_keyAccess[name]->mean();
 }
-- 
2.43.0


From 0b80e7c0d4ef47107a7c7354fcb40400ae10dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:24 +0000
Subject: [PATCH 051/154] fix: an option ending in an equals sign is read out
 of bounds

---
 src/MinuitParameterSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 8229170..9289c26 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -174,8 +174,8 @@ void MinuitParameterSet::loadFromStream()
     if ( tokens.size() >= 3 && tokens[1] == "=" ) protoAliases.push_back( tokens );
     else if ( tokens[0].find("=") != std::string::npos && ! Particle::isValidDecayDescriptor( tokens[0] ) )
     {
-      auto expanded = split(tokens[0], '=');
-      WARNING( tokens[0] << " could be an expression, but not separated with white space. Did you mean: " << expanded[0] << " = " << expanded[1]  << " ... ?"); 
+      auto pos = tokens[0].find("=");
+      WARNING( tokens[0] << " could be an expression, but not separated with white space. Did you mean: " << tokens[0].substr(0, pos) << " = " << tokens[0].substr(pos+1)  << " ... ?"); 
     }
   }
   for ( const auto& alias : protoAliases ) tryAlias( alias );
-- 
2.43.0


From 2925bd394f926b89564f395bc0c01617c7beb83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 052/154] fix: functions applied to functions are evaluated in
 the wrong order

---
 src/ExpressionParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 7286e5a..9f096e1 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -47,8 +47,10 @@ void ExpressionParser::processUnaryOperators( std::vector<std::string>& opCodes,
     auto fcn = m_unaryFunctions.find( opCodes[pos] );
     DEBUG( " op = " << opCodes[pos] << " pos = " << pos );
     if ( fcn == m_unaryFunctions.end() ) continue;
-    expressions[pos] = fcn->second( expressions[pos] );
-    opCodes.erase( opCodes.begin() + pos );
+    auto last = pos; /// the innermost of a sequence of functions is applied first
+    while ( last + 1 < int(opCodes.size()) && m_unaryFunctions.count( opCodes[last+1] ) ) ++last;
+    for ( auto op = last; op >= pos; --op ) expressions[pos] = m_unaryFunctions[opCodes[op]]( expressions[pos] );
+    opCodes.erase( opCodes.begin() + pos, opCodes.begin() + last + 1 );
     pos--;
   }
 }
-- 
2.43.0


From 0e333019963e8acd5057f9644ebb51b2d135f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 053/154] fix: formulas with missing operands are read out of
 bounds

---
 src/ExpressionParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 9f096e1..37e0a31 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -33,6 +33,7 @@ void ExpressionParser::processBinaryOperators( std::vector<std::string>& opCodes
   for ( auto& fcn : m_binaryFunctions ) {
     for ( int pos = 0; pos < int(opCodes.size()); ++pos ) {
       if ( opCodes[pos] != fcn.first ) continue;
+      if ( pos + 1 >= int(expressions.size()) ) FATAL( "Operator " << opCodes[pos] << " is missing an operand" );
       expressions[pos] = fcn.second( expressions[pos], expressions[pos + 1] );
       expressions.erase( expressions.begin() + pos + 1 );
       opCodes.erase( opCodes.begin() + pos );
@@ -47,6 +48,7 @@ void ExpressionParser::processUnaryOperators( std::vector<std::string>& opCodes,
     auto fcn = m_unaryFunctions.find( opCodes[pos] );
     DEBUG( " op = " << opCodes[pos] << " pos = " << pos );
     if ( fcn == m_unaryFunctions.end() ) continue;
+    if ( pos >= int(expressions.size()) ) FATAL( "Function " << opCodes[pos] << " is missing its argument" );
     auto last = pos; /// the innermost of a sequence of functions is applied first
     while ( last + 1 < int(opCodes.size()) && m_unaryFunctions.count( opCodes[last+1] ) ) ++last;
     for ( auto op = last; op >= pos; --op ) expressions[pos] = m_unaryFunctions[opCodes[op]]( expressions[pos] );
@@ -82,7 +84,7 @@ std::vector< std::pair<iterator, iterator> > split_it( iterator begin, iterator
   rt.emplace_back(begin, begin);
   int b1l = 0;
   int b2l = 0;
-  for( auto it = begin; it != end-1; ++it )
+  for( auto it = begin; it < end-1; ++it )
   {
     b1l += ( it->at(0) == '(') - (it->at(0) == ')');
     b2l += ( it->at(0) == '{') - (it->at(0) == '}');
@@ -141,6 +143,7 @@ Expression ExpressionParser::parseTokens(std::vector<std::string>::const_iterato
   DEBUG( "nExpressions = " << expressions.size() << " nOpCodes = " << opCodes.size() << " " << vectorToString( opCodes, " " ) );
   processUnaryOperators( opCodes, expressions );
   processBinaryOperators( opCodes, expressions );
+  if( expressions.size() == 0 ) FATAL("Expression is empty");
   if( expressions.size() != 1 ){
     ERROR("Could not process expression: n = " << expressions.size() << " " << merge(begin, end) );
   }
-- 
2.43.0


From cb6f1844b9adf475c96216a871b5578578126c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:29 +0000
Subject: [PATCH 054/154] fix: the empty sequence of transforms is not the
 identity on spinors

---
 src/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 812a6be..7149fbd 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -115,7 +115,7 @@ void TransformSequence::buildCache()
   {
    if( m_transforms.size() == 0 ){
      if( repr == Transform::Representation::Spinor ) m_cache[repr] = Identity(2);
-     m_cache[repr] = Identity(4);
+     else m_cache[repr] = Identity(4);
    }
    else { 
     Tensor::Index a,b,c;
-- 
2.43.0


From 9862314ccd6c67d582d1467a4a23da1a8a1d5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:58 +0000
Subject: [PATCH 055/154] fix: chiral fermion-scalar vertices read the scalar
 as if it were the spinor

---
 src/FermionVertices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index e6b25cf..79b833d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -84,14 +84,14 @@ DEFINE_VERTEX( f_Vf_SR )
 DEFINE_VERTEX( f_fS_SL )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( f_fS_SR )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( f_fS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
@@ -260,14 +260,14 @@ DEFINE_VERTEX( F_VF_SR )
 DEFINE_VERTEX( F_FS_SL )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( F_FS_SR )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
-- 
2.43.0


From fac3be1d2eb92ecd74e3d6da29321debda51c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:58 +0000
Subject: [PATCH 056/154] fix: some vertices drop the spin factor of the scalar
 decay product

---
 src/FermionVertices.cpp | 12 ++++++------
 src/Vertex.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 79b833d..d54dd7d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -28,7 +28,7 @@ DEFINE_VERTEX( f_fS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -140,7 +140,7 @@ DEFINE_VERTEX( r_fS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -153,7 +153,7 @@ DEFINE_VERTEX( r_fS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
@@ -204,7 +204,7 @@ DEFINE_VERTEX( F_FS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -316,7 +316,7 @@ DEFINE_VERTEX( R_FS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hbProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -329,7 +329,7 @@ DEFINE_VERTEX( R_FS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index e6ce10f..b9ad3cb 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -295,7 +295,7 @@ DEFINE_VERTEX( V_TS_D )
 {
   Tensor L        = ( -1 ) * Orbital_PWave( P, Q );
   Tensor coupling = LeviCivita()( -mu, -nu, -alpha, -beta ) * P( nu ) * Q( alpha );
-  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha );
+  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha ) * V2[0];
 }
 
 DEFINE_VERTEX( S_fF_S ) { return Bar(V2)(a) * V1(a); }
-- 
2.43.0


From e15b4d1d2ed94bf81e6e2b068c6e6e4bd1e096c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:58 +0000
Subject: [PATCH 057/154] fix: two antifermion vertices project on fermion
 states

---
 src/FermionVertices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index d54dd7d..fd08f5c 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -270,7 +270,7 @@ DEFINE_VERTEX( F_FS_SR )
   return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
-DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
+DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
 
 DEFINE_VERTEX( F_FS_P1 )
 {
@@ -304,7 +304,7 @@ DEFINE_VERTEX( F_VF_P3 ) //A5
 
 DEFINE_VERTEX( F_VF_D1 )
 {
-  Tensor proj   = Spin1hProjector(P);
+  Tensor proj   = Spin1hbProjector(P);
   Tensor gt     = gamma_twiddle(P);
   Tensor L      = Orbital_DWave(P,Q)(-mu,-nu) * V1(nu); 
   return proj( a, b ) * gt(mu,b,c) * L(-mu) * V2(c) ;
-- 
2.43.0


From 336dd40adfb49f2b5322a19d928a2119cc3fb432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:27 +0000
Subject: [PATCH 058/154] fix: helicity states of particles moving along -z
 have the wrong helicity

---
 src/Particle.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 4cfa91c..7bb6739 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -556,9 +556,10 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       Expression invPT2 = make_cse(Ternary( pX*pX + pY*pY > 1e-6, 1./(pX*pX+pY*pY), 0 ));
       Expression invP   = make_cse(Ternary( pP            > 1e-6, 1./pP,0));
       Expression pZoverP = make_cse(Ternary( pP > 1e-6, pZ/pP, 1) );
-      Expression f = (pP-pZ)*invPT2;
-      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP, z*invP           , 0.  }); 
-      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
+      Expression f = (pP-pZ)*invPT2*invP;
+      Expression onAxis = make_cse(Ternary( pX*pX + pY*pY > 1e-6, 0, 1 - pZoverP )); // limit of pX*pX*f for momenta on the z-axis, 0 if along +z and 2 if along -z 
+      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f, -1i*pZoverP - 1i*z *pX*f - 1i*onAxis, z*invP           , 0.  }); 
+      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f, -1i*pZoverP - 1i*zb*pX*f - 1i*onAxis,-zb*invP          , 0.  });
       if(polState ==  0) return     Tensor({pX*pE*invP/m    , pY*pE*invP/m       , pZoverP*pE/m, pP/m}); 
     }
     if( m_spinBasis == spinBasis::Dirac ){
@@ -575,8 +576,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       std::array<Tensor,2> xi;
       Expression aligned = make_cse( fcn::abs(pP + pZ) < 1e-6 ) ;
       Expression n       = 1/fcn::sqrt( 2 * pP*(pP+pZ) );
-      xi[0] = Tensor( { Ternary( aligned, 1, n * ( pP + pZ ) )      , Ternary( aligned, 0, n * ( pX + 1i * pY) ) } );
-      xi[1] = Tensor( { Ternary( aligned, 0, n * ( -pX + 1i * pY )) , Ternary( aligned, 1, n * ( pP + pZ ) ) } );
+      Expression up      = make_cse( Ternary( pP < 1e-6, 1., 0. ) ); // quantised along +z at rest, and along -z if this is the direction of motion
+      xi[0] = Tensor( { Ternary( aligned, up    , n * ( pP + pZ ) )     , Ternary( aligned, 1 - up, n * ( pX + 1i * pY) ) } );
+      xi[1] = Tensor( { Ternary( aligned, up - 1, n * ( -pX + 1i * pY )) , Ternary( aligned, up    , n * ( pP + pZ ) ) } );
       Expression N = make_cse( fcn::sqrt((pE+m)/(2*m) ));
       Expression k = pP * polState / ( pE + m );
       int ind = polState == +1 ? 0 : 1;
-- 
2.43.0


From b3b133748033f9bcc5fbb96e672f9e558a7008f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:35 +0000
Subject: [PATCH 059/154] fix: radiative tensor vertices contract the tensor
 with its own momentum

---
 src/Vertex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index b9ad3cb..e88b4f3 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -380,7 +380,7 @@ DEFINE_VERTEX( S_TV_rp ){
   helOpV2.st();
 
   auto dot0 = make_cse(dot(P1,P2));// P1(alpha) * P2(-alpha);
-  Tensor res = V1(mu,nu)*P1(-nu);
+  Tensor res = V1(mu,nu)*P2(-nu);
   res.st();
 
   return -1i*LeviCivita()(-mu,-nu,-alpha,-beta)*V2(mu)*res(nu)*P1(alpha)*P2(beta) 
@@ -398,7 +398,7 @@ DEFINE_VERTEX( S_TV_rm ){
   helOpV2.st();
 
   auto dot0 = make_cse(dot(P1,P2));//  P1(alpha) * P2(-alpha);
-  Tensor res = V1(mu,nu)*P1(-nu);
+  Tensor res = V1(mu,nu)*P2(-nu);
   res.st();
 
   return -1i*LeviCivita()(-mu,-nu,-alpha,-beta)*helOpV2(mu)*res(nu)*P1(alpha)*P2(beta) 
-- 
2.43.0


From 2bc572c2d556fa06199bf613cdbc730c3e0afe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:22 +0000
Subject: [PATCH 060/154] fix: decays of unknown particles and malformed
 descriptors dereference null

---
 src/Particle.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 7bb6739..817086a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -89,6 +89,11 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
     return;
   }
   m_modifiers = getItems( items[0], {"[", "]"}, ";" );
+  if ( m_modifiers.size() == 0 ) {
+    ERROR( "Failed to parse string" << decayString );
+    m_isStateGood = false;
+    return;
+  }
   m_name      = m_modifiers[0];
   m_modifiers.erase( m_modifiers.begin() );
   for( auto& modifier : m_modifiers ) parseModifier( modifier );
@@ -98,6 +103,11 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
   }
   m_props = ParticlePropertiesList::get( m_name );
   pdgLookup();
+  if ( !isStateGood() ) {
+    ERROR( "Amplitude " << decayString << " not configured correctly" );
+    m_uniqueString = makeUniqueString();
+    return;
+  }
   auto fs = getFinalStateParticles( false );
   DEBUG( "Building particle from decay string = " << decayString << " name = " << m_name << " "<< m_props->name() );
   std::vector<bool> hasUsedFinalState( finalStates.size(), 0 );
@@ -111,10 +121,6 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
     }
   }
   if ( orderDaughters ) sortDaughters();
-  for ( auto& d : m_daughters ) m_isStateGood &= d->isStateGood();
-  if ( !isStateGood() ) {
-    ERROR( "Amplitude " << decayString << " not configured correctly" );
-  }
 //  if ( finalStates.size() == fs.size() ) {
   m_isStateGood = std::all_of(hasUsedFinalState.begin(), hasUsedFinalState.end(), [](const auto& b){return b;} );
 //  }
@@ -194,10 +200,9 @@ double Particle::S() const { return m_spinConfigurationNumber ; }
 
 void Particle::pdgLookup(bool quiet)
 {
-  if ( m_props == nullptr ) {
-    m_isStateGood = false;
-    return;
-  }
+  for ( const auto& d : m_daughters ) m_isStateGood &= d->isStateGood();
+  if ( m_props == nullptr ) m_isStateGood = false;
+  if ( ! m_isStateGood ) return;
   if ( m_lineshape == "BW" || m_usesDefaultLineshape ) {
     if ( m_name.find("NonRes") != std::string::npos || m_props->width() < ParticlePropertiesList::getMe()->quasiStableThreshold() ) m_lineshape = "FormFactor";
     if ( m_props->isPhoton() ) m_lineshape = "Photon";
@@ -315,10 +320,11 @@ std::string Particle::modifierString() const
 std::string Particle::makeUniqueString()
 {
   std::string modifier = modifierString();
+  std::string name     = m_props == nullptr ? m_name : m_props->name();
   if ( m_daughters.size() != 0 ) {
-    m_uniqueString = m_props->name() + modifier + "{" + vectorToString( m_daughters, ",", [](auto& d){ return d->makeUniqueString() ;} ) +"}";
+    m_uniqueString = name + modifier + "{" + vectorToString( m_daughters, ",", [](auto& d){ return d->makeUniqueString() ;} ) +"}";
   } else {
-    m_uniqueString = m_props->name() + modifier ;
+    m_uniqueString = name + modifier ;
   }
   return m_uniqueString;
 }
@@ -677,6 +683,7 @@ std::string Particle::texLabel( const bool& printHead, const bool& recurse ) con
 
 void Particle::sortDaughters()
 {
+  if( ! m_isStateGood ) return; 
   bool isAntiParticle = m_props->pdgID() < 0;
   if( isAntiParticle ) conjThis();
   std::stable_sort( m_daughters.begin(), m_daughters.end(), [](const auto& A, const auto& B) { return *A < *B; } );
@@ -738,7 +745,8 @@ void Particle::setName(const std::string& name)
 { 
   m_name   = name;
   m_props  = ParticlePropertiesList::get(name);
-  m_parity = m_props->P();
+  if( m_props == nullptr ) m_isStateGood = false;
+  else m_parity = m_props->P();
 }
 void Particle::setIndex( const unsigned int& index, const bool& setOri )
 {
-- 
2.43.0


From f111735adc0b0313a209f973ad069454227a28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:46 +0000
Subject: [PATCH 061/154] fix: exchange of identical particles leaves their
 spin states behind

---
 src/Particle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 817086a..6b39678 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -442,6 +442,8 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
   std::vector<int> exchangeParities;
   std::transform(fsp.begin(), fsp.end(), std::back_inserter(exchangeParities), 
       [](const auto& p){ return p->props()->isFermion() ? -1 : 1; } );
+  std::vector<int> polStates; // the spin state of a particle goes with its momentum
+  std::transform(fsp.begin(), fsp.end(), std::back_inserter(polStates), [](const auto& p){ return p->polState(); } );
   std::map< std::vector<size_t>, Expression> props; 
   for( const auto& ordering : orderings ){
     setOrdering( ordering );
@@ -450,6 +452,8 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
   for(const auto& ordering : orderings){
     auto exchangeParity = minSwaps( ordering, exchangeParities );   
     setOrdering( ordering );
+    for( size_t i = 0 ; i != fsp.size(); ++i ) 
+      if( fsp[i]->polState() != polStates[ordering[i]] ) fsp[i]->setPolarisationState( polStates[ordering[i]] );
     Expression spinFactor = 1; 
     if( includeSpin && m_spinFormalism == spinFormalism::Covariant ){
       Tensor st = spinTensor(db);
@@ -489,6 +493,8 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
     else              total = total + fcn::conj(ls) * ls;
     if(!doSymmetrisation) break;
   }
+  for( size_t i = 0 ; i != fsp.size(); ++i ) 
+    if( fsp[i]->polState() != polStates[i] ) fsp[i]->setPolarisationState( polStates[i] );
   ADD_DEBUG( total, db );
   double nPermutations = doSymmetrisation ? orderings.size() : 1;
   if ( sumAmplitudes )
-- 
2.43.0


From 2f51075abb609233b3b48f7facb695ff45fde03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:19 +0000
Subject: [PATCH 062/154] fix: barrier factor of orbital momentum four mixes
 the two momenta in its normalisation

---
 src/Lineshapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 7406c7d..6f99a01 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -32,7 +32,7 @@ Expression AmpGen::BlattWeisskopf_Norm( const Expression& ze, const Expression&
     case 1: return (1+z0) / (1+z);
     case 2: return (z0*z0 + 3*z0 + 9 ) / (z*z + 3*z + 9);
     case 3: return (z0*fpow(z0-15,2) + 9*fpow( 2*z0 -5,2 ) ) / (z*fpow(z-15,2) + 9*fpow( 2*z -5,2 ) );
-    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z*fpow(2*z-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
+    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z0*fpow(2*z0-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
     default : 
       ERROR("Barrier factors not for implemented for L>4");
       return 0;
-- 
2.43.0


From 77b9c17f0168931c6c75ab278b640b13ac63853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:19 +0000
Subject: [PATCH 063/154] fix: D-wave barrier factor of the dispersive phase
 space has a product instead of a sum

---
 src/Lineshapes/CoupledChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index a052762..bc63708 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -100,7 +100,7 @@ namespace {
   {
     if constexpr( L == 0 )      return expression_type(1);
     else if constexpr( L == 1 ) return expression_type( 2 * z / ( 1 + z )  ); 
-    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z * 9 ) ); 
+    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z + 9 ) ); 
     else if constexpr( L == 3 ) return expression_type( 277  * z * z * z  / (z*(z-15)*(z-15) + 9* ( 2 * z - 5 ) * (2*z-5 ) ) );  
     else {
       std::cout << "error, blatt weisskopf not implemented for L> 3 (if you are trying to calculate dispersive corrections in such a case, good luck to ya" << std::endl; 
-- 
2.43.0


From df53b48106003d844807981b0a6ada0e91e6567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:50 +0000
Subject: [PATCH 064/154] fix: add the non-resonant production term of the
 generic K-matrix once per channel

---
 src/Lineshapes/GenericKmatrix.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 08f0391..027a426 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -128,13 +128,12 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
     for(unsigned k = 0 ; k < nChannels; ++k) a[k] = Parameter(particleName+"::a::"+std::to_string(k+1));
     //now start loop to calculate the production amplitude
     for(unsigned k = 0 ; k < nChannels; ++k){
+      for(unsigned q = 0 ; q < nChannels; ++q) phi[k] += a[q] * non_resonant[{k,q}];
+      P[k] += phi[k] * (1.+s_0)/(s-s_0);
       for(unsigned alpha = 0; alpha < nPoles; ++alpha){
         Expression beta = 0;
-        for(unsigned q = 0 ; q < nChannels; ++q){
-          beta += a[q] * poleConfigs[alpha].couplings[q];
-          phi[k] += a[q] * non_resonant[{k,q}];
-        }
-        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s) + phi[k] * (1.+s_0)/(s-s_0);
+        for(unsigned q = 0 ; q < nChannels; ++q) beta += a[q] * poleConfigs[alpha].couplings[q];
+        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s);
       }
       F_0 += propagator[{0,k}] * P[k];
     }
-- 
2.43.0


From ba5ee5476a94c699b30fc5ca545332aeb6888436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:05 +0000
Subject: [PATCH 065/154] fix: splines take the value of the knot at knots,
 including the first

---
 src/Spline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index f32a739..de7f897 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -64,11 +64,11 @@ Expression Spline::eval(DebugSymbols* db) const
 {
   Expression x   = make_cse(m_x);
   double spacing = ( m_max - m_min ) / ( (double)m_nKnots - 1. );
-  Expression dx  = Fmod( x - m_min, spacing );
   Expression bin = ( x - m_min ) / spacing;
+  Expression dx  = spacing * Fmod( bin, 1. );
   Expression continuedValue            = m_points[m_nKnots-1];
 
-  Expression returnValue = Ternary( x > m_min && x < m_max,
+  Expression returnValue = Ternary( x >= m_min && x < m_max,
       m_points[bin] + ( ( m_points[bin + 1] - m_points[bin] ) / spacing 
         - ( m_points[bin + 1 + m_nKnots] + 2 * m_points[bin+m_nKnots] ) * spacing / 6. ) * dx 
       + m_points[bin+m_nKnots] * dx * dx / 2. 
-- 
2.43.0


From a4ca0a63a1250f0b9e2589088b219c8b95b807da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:05 +0000
Subject: [PATCH 066/154] fix: allow splines with two knots

---
 src/Spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index de7f897..6f546b5 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -92,6 +92,7 @@ SplineTransfer::SplineTransfer( const size_t& address, const std::string& name,
   , m_max( max )
 {
   unsigned int size = N - 2;
+  if( N < 3 ) return; // no inner knots, hence no curvatures to solve for
   gsl_matrix* M = gsl_matrix_alloc(size,size); 
   gsl_matrix_set_all(M, 0. );
   m_transferMatrix = gsl_matrix_alloc(size, size); 
@@ -126,7 +127,7 @@ void SplineTransfer::set( const unsigned int& N, const double& value )
 
 void SplineTransfer::transfer( CompiledExpressionBase* destination )
 {
-  unsigned size = m_parameters.size() - 2;
+  unsigned size = m_parameters.size() < 2 ? 0 : m_parameters.size() - 2;
   std::vector<double> mvectors( m_parameters.size(), 0 );
   double spacing = ( m_max - m_min ) / double( m_parameters.size() - 1);
 
-- 
2.43.0


From 1fc9df51b82af9278599fa688938b47e4379a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:05 +0000
Subject: [PATCH 067/154] fix: return the value of one-dimensional integrals of
 functions of a number

---
 AmpGen/NumericalIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index eaf1288..27e2dbc 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -93,7 +93,7 @@ namespace AmpGen {
     //   2.A. van Doren and L. de Ridder, An adaptive algorithm for numerical
     //     integration over an n-dimensional cube, J.Comput. Appl. Math. 2 (1976) 207-217.
     if constexpr( dim == 1 ){
-      if constexpr( is_functor<fcn, double(const double&)>::value ) { integrate_1d(F, xmin[0], xmax[0] ); }
+      if constexpr( is_functor<fcn, double(const double&)>::value ) { return integrate_1d(F, xmin[0], xmax[0] ); }
       else if constexpr( is_functor<fcn, double(const std::array<double, 1>& ) >::value ){
         return integrate_1d( [&F](const double& x){ return F( std::array<double,1>{x} ); }, xmin[0], xmax[0] );
       }
-- 
2.43.0


From 15bae244eb9deb22800ab5bf2cae424a6496cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:05 +0000
Subject: [PATCH 068/154] fix: adding a term to a compensated sum keeps its
 correction

---
 AmpGen/KahanSum.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/AmpGen/KahanSum.h b/AmpGen/KahanSum.h
index 25b5e8b..fc8dd5f 100644
--- a/AmpGen/KahanSum.h
+++ b/AmpGen/KahanSum.h
@@ -34,11 +34,8 @@ namespace AmpGen {
   template <typename T> 
     KahanSum<T> operator+( const KahanSum<T>& l, const T& var )
     {
-      KahanSum<T> rt; 
-      T y = var - l.cor;
-      T t = l.sum + y;
-      rt.cor = (t-l.sum)-y; 
-      rt.sum = t;
+      KahanSum<T> rt = l; 
+      rt += var; 
       return rt;
     }
 
-- 
2.43.0


From 727325b98a9677810d3bbe1cff14cf56c31f5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:21 +0000
Subject: [PATCH 069/154] fix: splines do not read the neighbouring interval
 just below a knot

---
 src/Spline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index 6f546b5..59c338c 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -64,8 +64,10 @@ Expression Spline::eval(DebugSymbols* db) const
 {
   Expression x   = make_cse(m_x);
   double spacing = ( m_max - m_min ) / ( (double)m_nKnots - 1. );
-  Expression bin = ( x - m_min ) / spacing;
-  Expression dx  = spacing * Fmod( bin, 1. );
+  Expression pos = make_cse( ( x - m_min ) / spacing );
+  Expression rem = make_cse( Fmod( pos, 1. ) );
+  Expression bin = make_cse( pos - rem );
+  Expression dx  = spacing * rem;
   Expression continuedValue            = m_points[m_nKnots-1];
 
   Expression returnValue = Ternary( x >= m_min && x < m_max,
-- 
2.43.0


From 5a34d605cd5735286dea9a2760b4f8bbd7124b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:51 +0000
Subject: [PATCH 070/154] fix: integrals that cancel to rounding precision no
 longer end the program

---
 AmpGen/NumericalIntegration.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index 27e2dbc..fb5b1bb 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -3,6 +3,7 @@
 #include <iostream>
 #include <queue>
 
+#include <gsl/gsl_errno.h>
 #include <gsl/gsl_integration.h>
 
 #include "AmpGen/MetaUtils.h"
@@ -10,6 +11,16 @@
 #include "AmpGen/simd/integrate_fp.h"
 
 namespace AmpGen {
+  namespace detail {
+    /// Runs a GSL integrator; a result limited by rounding (e.g. an integral that vanishes) is a valid one 
+    template <typename integrator_type> void run_gsl_integrator( const integrator_type& integrator )
+    {
+      auto handler = gsl_set_error_handler_off();
+      int status   = integrator();
+      gsl_set_error_handler(handler);
+      if( status != GSL_SUCCESS && status != GSL_EROUND ) gsl_error( gsl_strerror(status), __FILE__, __LINE__, status );
+    }
+  }
   template <typename function_type> double integrate_1d( const function_type& fcn, const double& min, const double& max, gsl_integration_workspace* ws = nullptr)
   {
     gsl_integration_workspace* w = (ws == nullptr) ? gsl_integration_workspace_alloc (1000) : ws;
@@ -28,7 +39,7 @@ namespace AmpGen {
     else static_assert( true, "function matches no signature!");
 
     F.params   = const_cast<function_type*>(&fcn);
-    gsl_integration_qags (&F, min, max, 0, 1e-5, 1000, w, &result, &error);
+    detail::run_gsl_integrator( [&]{ return gsl_integration_qags (&F, min, max, 0, 1e-5, 1000, w, &result, &error); } );
     if( ws == nullptr ) gsl_integration_workspace_free (w);
     return result;
   }
@@ -40,7 +51,7 @@ namespace AmpGen {
     gsl_function F;
     F.function = [](double x, void* p) -> double { return (*static_cast<function_type*>(p))(x); };
     F.params   = const_cast<function_type*>(&fcn);
-    gsl_integration_qagi(&F, 0, 1e-5, 1000, w, &result, &error);
+    detail::run_gsl_integrator( [&]{ return gsl_integration_qagi(&F, 0, 1e-5, 1000, w, &result, &error); } );
     if( ws == nullptr ) gsl_integration_workspace_free (w);
     //std::cout << result << " +/- " << error << std::endl; 
     return result;
@@ -54,7 +65,7 @@ namespace AmpGen {
     gsl_function F;
     F.function = [](double x, void* p) -> double { return (*static_cast<function_type*>(p))(x); };
     F.params   = const_cast<function_type*>(&fcn);
-    gsl_integration_qawc(&F, min, max, x0, 0, 1e-8, 1000, w, &result, &error);
+    detail::run_gsl_integrator( [&]{ return gsl_integration_qawc(&F, min, max, x0, 0, 1e-8, 1000, w, &result, &error); } );
     if( ws == nullptr ) gsl_integration_workspace_free (w);
     return result;
   }
-- 
2.43.0


From 8b0dc111a90b311430e091c9eed2ec400319b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:34 +0000
Subject: [PATCH 071/154] fix: the options parser is created once, also when
 first used by several threads

---
 AmpGen/OptionsParser.h | 1 -
 src/OptionsParser.cpp  | 5 ++---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/AmpGen/OptionsParser.h b/AmpGen/OptionsParser.h
index d1b35f9..303de33 100644
--- a/AmpGen/OptionsParser.h
+++ b/AmpGen/OptionsParser.h
@@ -42,7 +42,6 @@ namespace AmpGen
     std::map<std::string, std::function<void(std::vector<std::string>)> > m_keywords;
     bool m_printHelp = {false};  
     bool m_quiet     = {false}; 
-    static OptionsParser* gOptionsParser;
     
     OptionsParser();
     bool ignoreThisLine( const std::string& line );
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 9cd1821..724d3a0 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -10,7 +10,6 @@
 
 using namespace AmpGen;
 
-OptionsParser* OptionsParser::gOptionsParser = nullptr; 
 
 OptionsParser::OptionsParser()
 {
@@ -22,8 +21,8 @@ OptionsParser::OptionsParser()
 
 OptionsParser* OptionsParser::getMe()
 {
-  if( gOptionsParser == nullptr ) gOptionsParser = new OptionsParser();
-  return gOptionsParser;
+  static OptionsParser* parser = new OptionsParser();
+  return parser;
 }
 
 void OptionsParser::setQuiet(){
-- 
2.43.0


From 0a2700e83be7a448bd3b6a1dcabcfbf8719d7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:34 +0000
Subject: [PATCH 072/154] fix: a thread pool can be waited for before it is
 destroyed

---
 src/ThreadPool.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index b0489cf..2fd7650 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -36,6 +36,5 @@ void ThreadPool::waitForStoppedThreads()
     m_stop = true;
   }
   m_condition.notify_all();
-  for(std::thread &worker: m_workers) worker.join();
-  m_stop = false;
+  for(std::thread &worker: m_workers) if( worker.joinable() ) worker.join();
 }
-- 
2.43.0


From d87bd83dbf254c7f64d8b04104a17cec1fbd4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:34 +0000
Subject: [PATCH 073/154] fix: tasks run by a disabled thread pool, or one
 without workers, deliver their result

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 5b2d1ee..41e0bf6 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -68,7 +68,7 @@ namespace AmpGen
     using return_type = typename std::invoke_result_t<F, Args...>;
     auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
     std::future<return_type> res = task->get_future();
-    if(! m_enableThreadPool ) {  f(args...); return res; } 
+    if(! m_enableThreadPool || m_workers.empty() ) { (*task)(); return res; } 
     else
     {
       {
-- 
2.43.0


From bb3c75ff85c4ff961bd7cc4d6fd28dcca869e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:34 +0000
Subject: [PATCH 074/154] fix: tasks with arguments can be submitted to the
 thread pool

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 41e0bf6..bd3d65c 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -66,7 +66,7 @@ namespace AmpGen
   template<typename F, typename... Args> auto ThreadPool::enqueue(F&& f, Args&&... args) -> std::future<typename std::invoke_result_t<F,Args...>>
   {
     using return_type = typename std::invoke_result_t<F, Args...>;
-    auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
+    auto task = std::make_shared< std::packaged_task<return_type()> >( std::bind( std::forward<F>(f), std::forward<Args>(args)... ) );
     std::future<return_type> res = task->get_future();
     if(! m_enableThreadPool || m_workers.empty() ) { (*task)(); return res; } 
     else
-- 
2.43.0


From 871924e6e4e598cf3d00ba4b8ab66d7935f4a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 075/154] fix: a function cache takes its size from the events
 it is given, not from an unset pointer

---
 AmpGen/Store.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Store.h b/AmpGen/Store.h
index 9101f42..a62e0eb 100644
--- a/AmpGen/Store.h
+++ b/AmpGen/Store.h
@@ -117,7 +117,7 @@ namespace AmpGen {
     public:
       FunctionCache() = default; 
       FunctionCache(const input_type* input, const std::size_t& nFields = 0 ) : 
-        Store<stored_type, align>(m_input->size(), nFields ), m_input(input) {} 
+        Store<stored_type, align>(input->size(), nFields ), m_input(input) {} 
 
       template <typename functor_type> FunctionCache(const input_type* input, const std::vector<functor_type>& functors)
       {
-- 
2.43.0


From 4815a265da792e6432ab41fa0649be21b1778295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 076/154] fix: refill a dynamic container at the end of its
 buffer also through a const iterator

---
 AmpGen/DynamicContainer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/DynamicContainer.h b/AmpGen/DynamicContainer.h
index f43eec9..72d63a1 100644
--- a/AmpGen/DynamicContainer.h
+++ b/AmpGen/DynamicContainer.h
@@ -30,7 +30,7 @@ namespace AmpGen
       TYPE operator*() const { return ( *m_container )[m_pos]; }
       Iterator operator++() const
       {
-        if ( m_pos + 1 % m_container->m_buffer.size() == 0 && m_pos + 1 != m_container->m_totalSize ) {
+        if ( (m_pos + 1) % m_container->m_buffer.size() == 0 && m_pos + 1 != m_container->m_totalSize ) {
           m_container->refresh();
         }
         return Iterator( m_pos + 1, m_container );
-- 
2.43.0


From b82920a9635396fc4c4ba4e95057f09f7ad850f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 077/154] fix: block iterator reads only blocks that exist,
 starts at the block asked for, and does not lose changes when a loop is left
 early

---
 AmpGen/simd/iterator.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/AmpGen/simd/iterator.h b/AmpGen/simd/iterator.h
index 3949a0a..8637933 100644
--- a/AmpGen/simd/iterator.h
+++ b/AmpGen/simd/iterator.h
@@ -6,23 +6,25 @@ namespace AmpGen {
     store_type*                        m_store; 
     std::array<stored_type, simd_size> m_buffer;
     size_t                   m_pos{0};
+    bool                     m_modified{false};
     public:
     int pos() const { return m_pos ; }
     scatter_iterator( const size_t& pos, store_type* store ) : 
       m_store(store), 
       m_pos(pos) { 
-        if( m_store != nullptr && pos < m_store->aligned_size()) m_buffer = m_store->scatter(pos / simd_size );
+        if( m_store != nullptr && pos < m_store->aligned_size()) m_buffer = m_store->scatter(pos);
       }
     stored_type* operator->() const { return &( m_buffer )[m_pos % simd_size]; }
     stored_type   operator*() const { return    m_buffer  [m_pos % simd_size]; }
-    stored_type&  operator*()       { return    m_buffer  [m_pos % simd_size]; }
+    stored_type&  operator*()       { m_modified = true; return m_buffer[m_pos % simd_size]; }
     scatter_iterator& operator++()  
     {
       m_pos++;
       if ( m_pos % simd_size == 0 )
       { 
-        if constexpr(modifiable == true ) m_store->gather(m_buffer, (m_pos-1) / simd_size); 
-        m_buffer = m_store->scatter( m_pos );
+        if constexpr(modifiable == true ) if( m_modified ) m_store->gather(m_buffer, (m_pos-1) / simd_size); 
+        m_modified = false;
+        if( m_pos < m_store->aligned_size() ) m_buffer = m_store->scatter( m_pos );
       }
       return *this;  
     }
@@ -30,7 +32,7 @@ namespace AmpGen {
     {
       if constexpr(modifiable == true)
       {
-        if(m_store != nullptr && m_pos % simd_size != 0 ){
+        if(m_store != nullptr && m_modified ){
           m_store->gather(m_buffer, m_pos/simd_size); 
         }
       }
-- 
2.43.0


From 45a935fa84abaee75eea39c8604b75d246ba9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 078/154] fix: EventList::integral sums weights as real numbers

---
 src/EventList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 33e9069..8077be4 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -207,7 +207,7 @@ TH2D* EventList::makeProjection( const Projection2D& projection, const ArgumentP
 
 double EventList::integral() const
 {
-  return std::accumulate( std::begin(*this), std::end(*this), 0, [](double rv, const auto& evt){ return rv + evt.weight(); } );
+  return std::accumulate( std::begin(*this), std::end(*this), 0., [](double rv, const auto& evt){ return rv + evt.weight(); } );
 }
 
 void EventList::add( const EventList& evts )
-- 
2.43.0


From 694335cb84ca624450f32aeb7d5786cc65e13bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 079/154] fix: events keep their position as index when others
 are removed from a list

---
 AmpGen/EventList.h | 1 +
 src/EventList.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/AmpGen/EventList.h b/AmpGen/EventList.h
index cf739ed..fb0e71f 100644
--- a/AmpGen/EventList.h
+++ b/AmpGen/EventList.h
@@ -149,6 +149,7 @@ namespace AmpGen
     {
       unsigned currentSize = size();
       m_data.erase( std::remove_if( m_data.begin(), m_data.end(), fcn ) , m_data.end() );
+      for( unsigned i = 0 ; i != size(); ++i ) m_data[i].setIndex(i);
       INFO("Filter retains " << size() << " / " << currentSize << " events");
     }
 
diff --git a/src/EventList.cpp b/src/EventList.cpp
index 8077be4..00df275 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -230,6 +230,7 @@ void EventList::erase(const std::vector<Event>::iterator& begin,
     const std::vector<Event>::iterator& end)
 {
   m_data.erase( begin, end );
+  for( unsigned i = 0 ; i != m_data.size(); ++i ) m_data[i].setIndex(i);
 }
 
 void EventList::reserve( const size_t& size ) 
-- 
2.43.0


From 38c3b7b593e0abc2dfa96be83d00be411f54588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 080/154] fix: a cleared store has no entries

---
 AmpGen/Store.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Store.h b/AmpGen/Store.h
index a62e0eb..355455d 100644
--- a/AmpGen/Store.h
+++ b/AmpGen/Store.h
@@ -89,7 +89,7 @@ namespace AmpGen {
         m_store.resize(m_nBlocks * m_nFields); 
         m_index.clear();
       }
-      void clear() { m_store.clear(); m_index.clear() ; }
+      void clear() { m_nEntries = 0; m_nBlocks = 0; m_store.clear(); m_index.clear() ; }
       void store( const size_t& event0, const unsigned* index, const stored_type* item, const unsigned N = 1 )
       {
         for( unsigned i = 0 ; i != N; ++i ) (*this)(event0, index[i] ) = item[i]; 
-- 
2.43.0


From f95efd18a0ad1f92f56e2196e382e18831ef894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 081/154] fix: tree reader does not read entries past the end
 of the tree or entry list

---
 AmpGen/TreeReader.h | 2 +-
 src/TreeReader.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/TreeReader.h b/AmpGen/TreeReader.h
index 1e64d1f..d0a783a 100644
--- a/AmpGen/TreeReader.h
+++ b/AmpGen/TreeReader.h
@@ -46,7 +46,7 @@ namespace AmpGen
         Iterator& operator++()
         {
           m_position++;
-          m_parent->getEntry( m_position );
+          if( m_position < m_parent->nEntries() ) m_parent->getEntry( m_position );
           return *this;
         }
         bool operator==( const Iterator& rhs ) const { return m_position == rhs.m_position; }
diff --git a/src/TreeReader.cpp b/src/TreeReader.cpp
index c09aace..ef63376 100644
--- a/src/TreeReader.cpp
+++ b/src/TreeReader.cpp
@@ -43,5 +43,5 @@ TreeReader::~TreeReader()
   for ( auto& branch : m_branches ) delete branch;
 }
 
-TreeReader::Iterator TreeReader::begin() { getEntry(0); return Iterator( 0, this ); }
+TreeReader::Iterator TreeReader::begin() { if( nEntries() != 0 ) getEntry(0); return Iterator( 0, this ); }
 TreeReader::Iterator TreeReader::end()   { return Iterator( nEntries(), this ); }
-- 
2.43.0


From 0fad68024797163976e23887b4feb050d5fec1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 082/154] fix: a value below the range of a projection is not
 counted in its first bin

---
 src/Projection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Projection.cpp b/src/Projection.cpp
index e6199b1..b8e15a6 100644
--- a/src/Projection.cpp
+++ b/src/Projection.cpp
@@ -4,6 +4,7 @@
 #include "AmpGen/EventList.h"
 #include "AmpGen/EventListSIMD.h"
 #include <stdio.h>
+#include <cmath>
 
 #include "TAxis.h"
 #include "TH1.h"
@@ -53,7 +54,7 @@ TH1D* Projection::plot(const std::string& prefix) const {
   return plot;
 }
 std::function<int(const Event& evt )> Projection::binFunctor() const {
-  return [this](auto& evt){ return int ( ( (*this)(evt) - m_min ) / m_width ) ;};
+  return [this](auto& evt){ return int ( std::floor( ( (*this)(evt) - m_min ) / m_width ) ) ;};
 }
 
 TH2D* Projection2D::plot(const std::string& prefix) const {
-- 
2.43.0


From a1f8c64169875af304ff27d8e640cdb33b7c4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 083/154] fix: match particle ids one to one when ordering an
 event, with antiparticle ids of self-conjugate particles

---
 src/EventType.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 8b0e524..2525a9f 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -243,26 +243,30 @@ std::function<void( Event& )> EventType::symmetriser() const
 
 std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrdering() const 
 {
-  std::vector<int> ids;
-  for( unsigned i = 0 ; i != m_particleNames.size(); ++i ) ids.push_back( ParticleProperties::get(m_particleNames[i])->pdgID() );
-  auto matches = [](const auto& c1, const auto& c2 , unsigned sgn = +1)
+  std::vector<int> ids, anti_ids;
+  for( unsigned i = 0 ; i != m_particleNames.size(); ++i ){
+    ids.push_back( ParticleProperties::get(m_particleNames[i])->pdgID() );
+    anti_ids.push_back( ParticleProperties::get(m_particleNames[i])->anti().pdgID() );
+  }
+  auto matches = [](const auto& c1, const auto& c2)
   {
+    if( c1.size() != c2.size() ) return false;
     std::vector<bool> used( c1.size(), false );
     for(unsigned i = 0; i != c1.size(); ++i )
     {
       for( unsigned j = 0; j != c2.size(); ++j )
       {
-        if( c1[i] == sgn * c2[j] && ! used[j] ) used[j] = true;
+        if( c1[i] == c2[j] && ! used[j] ){ used[j] = true; break; }
       }
     }
     return std::all_of( std::begin(used), std::end(used), [](auto b) { return b; }  ) ;
   };
 
-  return [ids, matches](auto& event, const auto& actual_ids) -> bool {
+  return [ids, anti_ids, matches](auto& event, const auto& actual_ids) -> bool {
     std::vector<unsigned> new_addresses( ids.size(), 999 ); 
-    int sgn = +1; 
-    if( matches(ids, actual_ids ) ) sgn = +1;
-    else if( matches(ids, actual_ids, -1 ) ) sgn = -1;
+    bool isAnti = false; 
+    if( matches(ids, actual_ids ) ) isAnti = false;
+    else if( matches(anti_ids, actual_ids ) ) isAnti = true;
     else { ERROR("Ids: " << vectorToString(actual_ids, " ") << " do not match either particle or antiparticle ["<< vectorToString(ids, " ") << "]" );
       return false; 
     }
@@ -271,7 +275,7 @@ std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrderin
     {
       for( unsigned j = 0 ; j != actual_ids.size(); ++j )
       {
-        if( actual_ids[j] ==  sgn * ids[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
+        if( actual_ids[j] == ( isAnti ? anti_ids[i] : ids[i] ) && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
       }
     }
     event.reorder( new_addresses );
-- 
2.43.0


From 8522699b4cb30f87e6485db537505abe269405df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 084/154] fix: a selection replaces the entry list, and loads
 nothing if it selects nothing

---
 src/EventList.cpp     | 5 +++++
 src/EventListSIMD.cpp | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 00df275..d6c5843 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -120,8 +120,13 @@ void EventList::loadFromTree( TTree* tree, const ArgumentPack& args )
     tr.prepare();
     tree->Draw(">>evtList", filter.c_str() );
     TEventList* evtList = (TEventList*)gDirectory->Get("evtList");
+    entryList.clear();
     for( int i = 0 ; i < evtList->GetN(); ++i ) 
       entryList.push_back( evtList->GetEntry(i) );
+    if( entryList.size() == 0 ){
+      WARNING("No events pass selection: " << filter );
+      return;
+    }
   }
   if( entryList.size() != 0 ) tr.setEntryList( entryList );
   m_data.reserve( tr.nEntries() );
diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 9e07147..032f04d 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -110,9 +110,10 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
     tr.prepare();
     tree->Draw(">>evtList", filter.c_str() );
     TEventList* evtList = (TEventList*)gDirectory->Get("evtList");
+    entryList.clear();
     for( int i = 0 ; i < evtList->GetN(); ++i ) entryList.push_back( evtList->GetEntry(i) );
   }
-  bool hasEventList    = entryList.size() != 0;
+  bool hasEventList    = filter != "" || entryList.size() != 0;
   size_t nEvents       = hasEventList ? entryList.size() : tree->GetEntries();
   std::array<Event, real_v::size> buffer;
   
-- 
2.43.0


From 24c15ddc10656f2cfc802ed946c6c06ef579f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:58 +0000
Subject: [PATCH 085/154] fix: padding of vector event lists carries no weight,
 and resizing gives blank events

---
 AmpGen/EventListSIMD.h |  7 +------
 AmpGen/simd/utils.h    | 10 +++++++---
 src/EventListSIMD.cpp  | 15 +++++++++++++--
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/AmpGen/EventListSIMD.h b/AmpGen/EventListSIMD.h
index db65cee..e641015 100644
--- a/AmpGen/EventListSIMD.h
+++ b/AmpGen/EventListSIMD.h
@@ -76,12 +76,7 @@ namespace AmpGen
     {
       m_genPDF[block] = g;
     } 
-    void resize( const unsigned nEvents )
-    {
-      m_data = Store<real_v, Alignment::AoS>(nEvents, m_eventType.eventSize());
-      m_weights.resize( aligned_size(), 1.f);
-      m_genPDF.resize( aligned_size(), 1.f );
-    }
+    void resize( const unsigned nEvents );
     const Event operator[]( const size_t&) const;
     std::array<Event, utils::size<real_v>::value> scatter(unsigned) const;
     void gather(const std::array<Event, utils::size<real_v>::value>&, unsigned);   
diff --git a/AmpGen/simd/utils.h b/AmpGen/simd/utils.h
index ce8498d..bb2b087 100644
--- a/AmpGen/simd/utils.h
+++ b/AmpGen/simd/utils.h
@@ -63,12 +63,16 @@ namespace AmpGen {
         template <>        struct is_vector_type <AVX::int_v>   : std::true_type {}; 
     #endif
     template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
-        const container_type& container, const functor_type& functor, unsigned offset=0, typename simd_type::scalar_type df =0.)
+        const container_type& container, const functor_type& functor, unsigned offset=0)
     {
       std::array<typename simd_type::scalar_type, simd_type::size> rv; 
-      if( df == 0. )
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : functor(container[container.size()-1]); 
-      else 
+      return simd_type( rv.data() );
+    } 
+    template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
+        const container_type& container, const functor_type& functor, unsigned offset, typename simd_type::scalar_type df)
+    {
+      std::array<typename simd_type::scalar_type, simd_type::size> rv; 
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : df; 
       return simd_type( rv.data() );
     } 
diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 032f04d..c4b7c61 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -130,7 +130,10 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
         if( applySym ) symmetriser( temp );
         buffer[k] = temp;  
       } 
-      else buffer[k].setWeight(0);
+      else {
+        buffer[k] = temp;
+        buffer[k].setWeight(0);
+      }
     }
     gather( buffer, block );
   }
@@ -139,6 +142,14 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
 }
 
 
+void EventListSIMD::resize( const unsigned nEvents )
+{
+  m_data = Store<real_v, Alignment::AoS>(nEvents, m_eventType.eventSize());
+  m_weights.assign( nBlocks(), 1.f );
+  m_genPDF.assign( nBlocks(), 1.f );
+  for( size_t i = size(); i != aligned_size(); ++i ) m_weights[i / real_v::size].to_ptr()[i % real_v::size] = 0;
+}
+
 EventListSIMD::EventListSIMD( const EventList& other ) : EventListSIMD( other.eventType() ) 
 {
   resize( other.size() );
@@ -236,7 +247,7 @@ std::array<Event, AmpGen::real_v::size> EventListSIMD::scatter( unsigned pos ) c
     rt[evt] = Event( m_data.nFields() );
     rt[evt].setWeight(vw[evt]); 
     rt[evt].setGenPdf(vg[evt]); 
-    rt[evt].setIndex(evt + pos);
+    rt[evt].setIndex(evt + p * real_v::size);
   }
   for( unsigned field = 0 ; field != m_data.nFields(); ++field){
     auto v = m_data(p, field).to_array();
-- 
2.43.0


From e9d7a32f15927ba9b92ed95e6edb2cf4482d4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 086/154] fix: a default constructed event type leaves its time
 dependence undefined

---
 AmpGen/EventType.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AmpGen/EventType.h b/AmpGen/EventType.h
index 77487ae..2d39513 100644
--- a/AmpGen/EventType.h
+++ b/AmpGen/EventType.h
@@ -74,15 +74,15 @@ namespace AmpGen
       std::string constructor_string() const;  
     private:
       std::string               m_mother;               ///< name of decaying particle
-      double                    m_motherMass;           ///< mass of decaying particle
+      double                    m_motherMass = {0};     ///< mass of decaying particle
       std::vector<std::string>  m_particleNames;        ///< names of decay products
       std::vector<std::string>  m_particleNamesPickled; ///< names of decay product pickled for ROOT
       std::vector<double>       m_particleMasses;       ///< masses of decay products
       std::vector<bool>         m_ignore;               ///< Flag to ignore particle when reading events, for invisible or tags 
-      bool                      m_timeDependent;        ///< Flag to include a decay time as the last element in the event vector
+      bool                      m_timeDependent = {false}; ///< Flag to include a decay time as the last element in the event vector
       std::vector<std::string>  m_eventTypeExtensions;  ///< extended event data
-      std::pair<unsigned, unsigned> m_dim;              ///< Rank of the relevant transition matrix
-      bool                      m_alt_part_names;       ///< alternative naming in ouput tree (e.g. Xi- pi+ pi+ becomes Xim pip0 pip1 rather than _1_Xi# _2_pi~ _3_pi~)
+      std::pair<unsigned, unsigned> m_dim = {0,0};      ///< Rank of the relevant transition matrix
+      bool                      m_alt_part_names = {false}; ///< alternative naming in ouput tree (e.g. Xi- pi+ pi+ becomes Xim pip0 pip1 rather than _1_Xi# _2_pi~ _3_pi~)
   };
 
 
-- 
2.43.0


From 1838ed2bd327d68b9c7f0476bf926a4335f3862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 087/154] fix: generating from several decay chains uses the
 smallest rather than the largest weight as the bound

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index 5782997..b551cfb 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -55,7 +55,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 void TreePhaseSpace::initialise_weights() 
 {
   auto weights = std::vector<double>( m_gen.size(), 1./m_gen.size() );
-  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() > b->maxWeight();} )) -> maxWeight(); 
+  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() < b->maxWeight();} )) -> maxWeight(); 
   m_dice = DiscreteDistribution(weights); 
 }
 
-- 
2.43.0


From 0265ef5e62dbb342f90082bb2c245b4a801785b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 088/154] fix: generating from several decay chains without an
 explicit random generator uses a null pointer

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index b551cfb..ea96af3 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -48,7 +48,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 //   add_decay_chain( Particle( decayChains[0].quasiStableTree() ) );
   
   initialise_weights(); 
-  setRandom(rndm);
+  setRandom(m_rand);
   DEBUG("w(max) = " << m_wmax << "#chains: " << m_gen.size() );  
 }
 
-- 
2.43.0


From 72b5c3e6cc9628ed6a38da3e08f4bb4b16928dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 089/154] fix: copies of a tree phase space generator delete
 their decay chains twice

---
 AmpGen/Generator.h      | 2 +-
 AmpGen/TreePhaseSpace.h | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index b848a86..db11f2b 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -40,7 +40,7 @@ namespace AmpGen
           if( m_rnd != gRandom ) setRandom( m_rnd );
         }
   
-        phaseSpace_t phsp() { return m_gps; }
+        phaseSpace_t& phsp() { return m_gps; }
   
         void setRandom( TRandom* rand )
         {
diff --git a/AmpGen/TreePhaseSpace.h b/AmpGen/TreePhaseSpace.h
index c8943f3..316a4c3 100644
--- a/AmpGen/TreePhaseSpace.h
+++ b/AmpGen/TreePhaseSpace.h
@@ -40,6 +40,8 @@ namespace AmpGen
       explicit TreePhaseSpace(const EventType& type);
       TreePhaseSpace(const Particle& decayChain, const EventType& type, TRandom* rndm = nullptr );
       TreePhaseSpace(const std::vector<Particle>& decayChains, const EventType& type, TRandom* rndm = nullptr);
+      TreePhaseSpace(const TreePhaseSpace&) = delete; 
+      TreePhaseSpace& operator=(const TreePhaseSpace&) = delete; 
       ~TreePhaseSpace(); 
 
       void setRandom( TRandom* rand );
-- 
2.43.0


From c4ef9da6dddf169fbe1565b6d8f1d7aebc2a6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:03 +0000
Subject: [PATCH 090/154] fix: phase space events can be NaN: the break-up
 momentum cancels catastrophically close to threshold

---
 src/PhaseSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PhaseSpace.cpp b/src/PhaseSpace.cpp
index 41e3191..8f34796 100644
--- a/src/PhaseSpace.cpp
+++ b/src/PhaseSpace.cpp
@@ -31,7 +31,8 @@ PhaseSpace::PhaseSpace( const Particle& particle, TRandom* rand ) :
 
 double PhaseSpace::q( double m, double m1, double m2 ) const
 {
-  return 0.5 * sqrt( m*m - 2*m1*m1 - 2*m2*m2 + (m1*m1-m2*m2)*(m1*m1-m2*m2)/(m*m) );
+  const auto q2 = ( m - m1 - m2 ) * ( m + m1 + m2 ) * ( m - m1 + m2 ) * ( m + m1 - m2 );
+  return q2 <= 0 ? 0 : 0.5 * sqrt( q2 ) / m;
 }
 
 void PhaseSpace::fill( double* output, unsigned width  )
-- 
2.43.0


From 982c7e864afd66ea53656dff1c81f831026af276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:46 +0000
Subject: [PATCH 091/154] fix: a phase space of more than 18 bodies overruns
 its array of masses

---
 src/PhaseSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PhaseSpace.cpp b/src/PhaseSpace.cpp
index 8f34796..781d3ec 100644
--- a/src/PhaseSpace.cpp
+++ b/src/PhaseSpace.cpp
@@ -99,6 +99,7 @@ Event PhaseSpace::makeEvent()
 
 bool PhaseSpace::setDecay( const double& m0, const std::vector<double>& mass )
 {
+  if ( mass.size() > kMAXP ) FATAL( "Phase space is limited to " << kMAXP << " particles, " << mass.size() << " requested" );
   m_nt = mass.size();
   m_teCmTm = m0;
   for (size_t n = 0; n < m_nt; n++) {
-- 
2.43.0


From 39e608e56d504052f5ece072482e19117ddcea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 092/154] fix: asking whether a coupling given by an expression
 is fixed dereferences a null pointer

---
 src/AmplitudeRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..3393ace 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -171,7 +171,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::getMatchingRules
 
 bool TotalCoupling::isFixed() const
 {
-  return std::all_of(begin(), end(), [](auto& c){ return c.x()->isFixed() && c.y()->isFixed() ; } );
+  return std::all_of(begin(), end(), [](auto& c){ return c.x() != nullptr && c.y() != nullptr && c.x()->isFixed() && c.y()->isFixed() ; } );
 }
 
 bool TotalCoupling::contains( const std::string& label ) const 
-- 
2.43.0


From 0c395e99d2f839e1262f53fce3fbd02e81d70ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 093/154] fix: the value of a link to a complex expression
 loses its imaginary part

---
 src/ExpressionParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 37e0a31..84c4a80 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -271,7 +271,8 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 complex_t MinuitParameterLink::operator()() const 
 { 
   if( m_parameter == nullptr ) ERROR("Parameter does not have end-point");
-  return m_parameter->mean(); 
+  auto as_expression = dynamic_cast<const MinuitExpression*>( m_parameter );
+  return as_expression != nullptr ? as_expression->getVal() : m_parameter->mean(); 
 }
 
 const MinuitParameter& MinuitParameterLink::param() const {
-- 
2.43.0


From ab65cd11f695711c16888fe614dc24675827e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 094/154] fix: adding CP conjugates creates a parameter without
 a name

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..91747c9 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -65,6 +65,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From 2cf36a3e6e83c8070a1b8e43fbb0c326aabd806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 095/154] fix: an incoherent sum is normalised by the coherent
 integral

---
 AmpGen/CoherentSum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index d9644bf..b18de3e 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -59,8 +59,8 @@ namespace AmpGen
     auto& operator[]( const size_t& index ) const { return m_matrixElements[index]; }
     size_t size()                          const { return m_matrixElements.size(); }
     real_t getWeight()                     const { return m_weight; }
-    real_t norm( const Bilinears& norms )  const;
-    real_t norm() const;
+    virtual real_t norm( const Bilinears& norms )  const;
+    virtual real_t norm() const;
     real_t getNorm( const Bilinears& normalisations );
 
     complex_t norm( const size_t& x, const size_t& y ) const;
-- 
2.43.0


From 6eb088072507a29abae9326da306fae33e61fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 096/154] fix: a decay product that occurs twice is expanded
 once for both, with a single coupling

---
 src/AmplitudeRules.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index 3393ace..2e0fb87 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -198,6 +198,21 @@ const AmplitudeRules* AmplitudeRules::get()
   return gAmplitudeRules; 
 }
 
+namespace {
+  /// Replaces a single undecayed particle in a decay descriptor
+  std::string replaceLeaf( std::string descriptor, const std::string& leaf, const std::string& replacement )
+  {
+    for( auto pos = descriptor.find(leaf); pos != std::string::npos; pos = descriptor.find(leaf, pos + 1) )
+    {
+      auto end = pos + leaf.size();
+      bool begins = pos != 0 && ( descriptor[pos-1] == '{' || descriptor[pos-1] == ',' );
+      bool ends   = end == descriptor.size() || descriptor[end] == ',' || descriptor[end] == '}';
+      if( begins && ends ) return descriptor.replace( pos, leaf.size(), replacement );
+    }
+    return replaceAll( descriptor, leaf, replacement );
+  }
+}
+
 std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Coupling& coupling ) const 
 {
   std::vector<std::pair<Particle, TotalCoupling>> rt;
@@ -220,7 +235,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Co
       auto expandedRules       = rulesForDecay( it->name() );
       for ( auto& subTree : expandedRules )
       {
-        auto expanded_amplitude = replaceAll( nameToExpand, it->name(), subTree.name() );
+        auto expanded_amplitude = replaceLeaf( nameToExpand, it->name(), subTree.name() );
         newTmpParticles.emplace_back( Particle( expanded_amplitude), TotalCoupling( coupling, subTree) );
       }
     }
-- 
2.43.0


From 67b14c5b45d84bae4d7b417feb804452b6ebfbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 097/154] fix: a coherent sum deletes an event list of the
 caller after it has been given a list that it copies

---
 AmpGen/CoherentSum.h | 2 +-
 src/CoherentSum.cpp  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index b18de3e..e16697b 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -79,7 +79,7 @@ namespace AmpGen
     #if ENABLE_AVX
       void setEvents( const EventList& list) { 
         WARNING("Setting events from a AoS container, will need to make a copy");
-        m_ownEvents = true; setEvents( *(new EventListSIMD(list)) ) ; } 
+        setEvents( *(new EventListSIMD(list)) ) ; m_ownEvents = true; } 
       void setMC    ( const EventList& list) { 
         WARNING("Setting integration events from a AoS container, will need to make a copy");
         setMC( *(new EventListSIMD(list)) ) ; } 
diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index a81703c..f8eb6e8 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -230,6 +230,7 @@ void CoherentSum::setEvents( const EventList_type& list )
   reset();
   for( auto& me : m_matrixElements ){ DEBUG("Registering: " << me.name() ) ; }
   if( m_ownEvents && m_events != nullptr ) delete m_events; 
+  m_ownEvents = false; 
   m_events = &list;
   m_cache.allocate(m_events, m_matrixElements); 
 }
-- 
2.43.0


From cfe8491201e1600b96d8866f675b414b733482c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 098/154] fix: elements outside of a tensor are reported but
 nevertheless accessed

---
 src/Tensor.cpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 69efba5..45974ee 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -36,18 +36,8 @@ Tensor::Tensor( const std::vector<Expression>& elements )
   for(auto& element : elements) append( element );
 }
 
-Expression Tensor::get( const unsigned& co )
-{
-  if ( co >= m_elements.size() )
-    ERROR("Element (" + std::to_string( co ) + " ) out of range (0" << ", " << m_elements.size() << ")");
-  return m_elements[m_symmetrisedCoordinates[co]];
-}
-Expression Tensor::get( const unsigned& co ) const
-{
-  if ( co >= m_elements.size() )
-    ERROR("Element (" + std::to_string( co ) + " ) out of range (0" << ", " << m_elements.size() << ")");
-  return m_elements[m_symmetrisedCoordinates[co]];
-}
+Expression Tensor::get( const unsigned& co ) { return Tensor::operator[]( co ); }
+Expression Tensor::get( const unsigned& co ) const { return Tensor::operator[]( co ); }
 
 std::string Tensor::to_string(const ASTResolver* resolver) const 
 {
@@ -84,7 +74,7 @@ void Tensor::setupCoordinates()
   std::iota( m_uniqueElements.begin(), m_uniqueElements.end(), 0 );
 }
 
-Expression Tensor::get( const std::vector<unsigned>& _co ) const { return ( m_elements[index( _co )] ); }
+Expression Tensor::get( const std::vector<unsigned>& _co ) const { return Tensor::operator[]( _co ); }
 
 unsigned Tensor::size() const { return m_elements.size(); }
 
@@ -98,9 +88,10 @@ unsigned Tensor::index( const std::vector<unsigned>& _co ) const
 
 unsigned Tensor::symmetrisedIndex( const std::vector<unsigned>& co ) const 
 {
+  if( co.size() < m_dim.size() ) FATAL("Element " << coordinates_to_string(co) << " of tensor with dimensions " << dimString() );
   auto id = Tensor::coordinates_to_index( co, m_dim );
-  if( id > m_symmetrisedCoordinates.size() ){
-    ERROR("Element: " << id << " is out of range: " << m_symmetrisedCoordinates.size() << "]");
+  if( id >= m_symmetrisedCoordinates.size() ){
+    FATAL("Element: " << id << " is out of range: " << m_symmetrisedCoordinates.size() << "]");
   }
   return m_symmetrisedCoordinates[id] ;
 }
@@ -313,7 +304,8 @@ void Tensor::print(const bool& eval) const
   for ( unsigned int i = 0; i < m_dim.size(); ++i )
     dim_string += std::to_string( m_dim[i] ) + ( i == m_dim.size() - 1 ? "" : "x" );
   if ( m_dim.size()  > 1 ) INFO("Rank=" << m_dim.size() << ", Dim=(" << dim_string << ")");
-  if ( m_dim.size() == 0 )
+  if ( m_elements.size() == 0 ) std::cout << to_string() << std::endl;
+  else if ( m_dim.size() == 0 )
     std::cout << m_elements[0].to_string() << std::endl;
   else if ( m_dim.size() == 1 ) {
     for ( unsigned int x = 0; x < m_dim[0]; ++x ){
@@ -535,10 +527,20 @@ void Tensor::imposeSymmetry( std::vector<unsigned> indices )
 }
 
 
-Expression& Tensor::operator[]( const unsigned& i )                           { return m_elements[m_symmetrisedCoordinates[i]]; }
-Expression& Tensor::operator[]( const std::vector<unsigned>& co )             { return m_elements[symmetrisedIndex(co)]; }
-const Expression& Tensor::operator[]( const unsigned& i ) const               { return m_elements[m_symmetrisedCoordinates[i]]; }
-const Expression& Tensor::operator[]( const std::vector<unsigned>& co ) const { return m_elements[symmetrisedIndex(co)]; }
+Expression& Tensor::operator[]( const unsigned& i )                           { return const_cast<Expression&>( static_cast<const Tensor&>(*this)[i] ); }
+Expression& Tensor::operator[]( const std::vector<unsigned>& co )             { return const_cast<Expression&>( static_cast<const Tensor&>(*this)[co] ); }
+const Expression& Tensor::operator[]( const unsigned& i ) const               
+{
+  if( i >= m_symmetrisedCoordinates.size() || m_symmetrisedCoordinates[i] >= m_elements.size() ) 
+    FATAL("Element (" << i << ") out of range (0, " << m_elements.size() << ")");
+  return m_elements[m_symmetrisedCoordinates[i]]; 
+}
+const Expression& Tensor::operator[]( const std::vector<unsigned>& co ) const 
+{
+  auto i = symmetrisedIndex(co);
+  if( i >= m_elements.size() ) FATAL("Element (" << i << ") out of range (0, " << m_elements.size() << ")");
+  return m_elements[i]; 
+}
 
 TensorProxy::TensorProxy(const Tensor& tensor, 
                          const std::vector<Tensor::Index>& indices) 
-- 
2.43.0


From 995cecc5c5dc4eda1a3da029b7c64874fa426075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 099/154] fix: operations on tensors with the wrong dimensions
 or indices are reported but nevertheless carried out

---
 src/Tensor.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 45974ee..ae1ac0d 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -251,8 +251,8 @@ Expression AmpGen::dot( const Tensor& A, const Tensor& B )
 
 Tensor Tensor::Invert() const
 {
+  if ( rank() != 2 || m_dim[0] != m_dim[1] ) FATAL("Inversion only implemented for square rank 2 objects");
   int actualsize = m_dim[0];
-  if ( rank() != 2 ) ERROR("Inversion only implemented for rank 2 objects");
   
   Tensor data = *this;
 
@@ -392,6 +392,8 @@ TensorProxy AmpGen::operator*( const TensorProxy& t1, const TensorProxy& t2 )
       unsummedIndices.push_back( t2.indices()[i] );
       finalTensorRank.push_back( t2_tensor.dims()[i] );
     } else {
+      if( t1_tensor.dims()[std::distance( t1_index.begin(), it )] != t2_tensor.dims()[i] ) 
+        FATAL("Trying to contract over indices of differing rank: " << t1_tensor.dimString() << " " << t2_tensor.dimString() );
       contractions.emplace_back( 
       std::distance( t1_index.begin(), it ), i, 
       t2_index[i].isUpper() != it->isUpper() ? -1 : 1 );
@@ -502,6 +504,8 @@ TensorProxy AmpGen::operator+( const TensorProxy& t1, const TensorProxy& t2 )
 void Tensor::imposeSymmetry( unsigned indexA, unsigned indexB) 
 {
   if( indexA > indexB ) std::swap( indexA, indexB );
+  if( indexB >= m_dim.size() || m_dim[indexA] != m_dim[indexB] ) 
+    FATAL("Cannot impose symmetry between indices " << indexA << " and " << indexB << " of tensor with dimensions " << dimString() );
   std::map< unsigned, unsigned > counter; 
   for( unsigned i = 0 ; i < m_symmetrisedCoordinates.size(); ++i ){
     auto coordinates = Tensor::index_to_coordinates( i, m_dim ); /// raw coordinates of this ///
@@ -519,7 +523,7 @@ void Tensor::imposeSymmetry( unsigned indexA, unsigned indexB)
 void Tensor::imposeSymmetry( std::vector<unsigned> indices )
 {
   std::sort( indices.begin(), indices.end() );
-  for( unsigned i=0;i<indices.size()-1;++i){
+  for( unsigned i=0;i+1<indices.size();++i){
     for( unsigned j=i+1;j<indices.size();++j){
       imposeSymmetry( indices[i], indices[j] );
     }
@@ -557,9 +561,7 @@ TensorProxy::TensorProxy(const Tensor& tensor,
     unsigned j = i + 1;
     for( ; j < indices.size(); ++j ){
       if( indices[i] != indices[j] ) continue;
-      ERROR("Tensor self-contractions not implemented yet!");
-      if( m_tensor.dims()[i] != m_tensor.dims()[j] ) 
-        ERROR("Trying to contract over indices of differing rank");
+      FATAL("Tensor self-contractions not implemented yet!");
       contractions.emplace_back(i, j, indices[i].isUpper() != indices[j].isUpper() ); 
       i++;
       break; 
@@ -572,6 +574,7 @@ TensorProxy::TensorProxy(const Tensor& tensor,
 
 TensorProxy TensorProxy::reorder( const std::vector<Tensor::Index>& indices )
 {
+  if( indices.size() != m_indices.size() ) FATAL("Wrong number of indices to reorder: " << indices.size() << " " << m_indices.size() );
   std::vector<unsigned> mapping( m_indices.size() ,0 );
   for(unsigned j= 0; j < indices.size(); ++j)
   {
-- 
2.43.0


From 42e88960322523a8511850d9f3f346d92004f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 100/154] fix: an unknown lineshape is reported but
 nevertheless used

---
 src/Lineshapes.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 6f99a01..356daaa 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -111,10 +111,12 @@ Expression Lineshape::Factory::get( const std::string& lineshape, const Expressi
 
   if ( pos == std::string::npos ) {
     auto it = AmpGen::Factory<Lineshape::Base>::get( lineshape );
-    if ( !it ) ERROR( "Lineshape : " << lineshape << " not found" );
+    if ( !it ) FATAL( "Lineshape : " << lineshape << " not found" );
     return it->get( s, s1, s2, particleName, L, "", dbexpressions );
   } else {
-    return AmpGen::Factory<Lineshape::Base>::get(lineshape.substr(0, pos))->get( s, s1, s2, particleName, L, lineshape.substr( pos + 1 ), dbexpressions );
+    auto it = AmpGen::Factory<Lineshape::Base>::get( lineshape.substr( 0, pos ) );
+    if ( !it ) FATAL( "Lineshape : " << lineshape << " not found" );
+    return it->get( s, s1, s2, particleName, L, lineshape.substr( pos + 1 ), dbexpressions );
   }
 }
 
@@ -125,10 +127,12 @@ Expression Lineshape::Factory::get(const std::string& lineshape, const AmpGen::P
   
   if ( pos == std::string::npos ) {
     auto it = AmpGen::Factory<Lineshape::Base>::get( lineshape );
-    if ( !it ) ERROR( "Lineshape : " << lineshape << " not found" );
+    if ( !it ) FATAL( "Lineshape : " << lineshape << " not found" );
     return it->get(p, "", dbexpressions );
   } else {
-    return AmpGen::Factory<Lineshape::Base>::get( lineshape.substr( 0, pos ) )->get(p, lineshape.substr( pos + 1 ), dbexpressions );
+    auto it = AmpGen::Factory<Lineshape::Base>::get( lineshape.substr( 0, pos ) );
+    if ( !it ) FATAL( "Lineshape : " << lineshape << " not found" );
+    return it->get(p, lineshape.substr( pos + 1 ), dbexpressions );
   }
 }
 
-- 
2.43.0


From 491dfb2745c3a3488dbfa80978e5d19eb3393f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 101/154] fix: a spline with undefined knots dereferences a
 null pointer

---
 src/Spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index 59c338c..d29cef8 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -129,6 +129,7 @@ void SplineTransfer::set( const unsigned int& N, const double& value )
 
 void SplineTransfer::transfer( CompiledExpressionBase* destination )
 {
+  if( ! isConfigured() ) FATAL("Not all of the knots of spline " << m_name << " are defined");
   unsigned size = m_parameters.size() < 2 ? 0 : m_parameters.size() - 2;
   std::vector<double> mvectors( m_parameters.size(), 0 );
   double spacing = ( m_max - m_min ) / double( m_parameters.size() - 1);
-- 
2.43.0


From c7b280bbb5a2d0f99ca4142961a3b3aced69c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 102/154] fix: polarisation states below the lowest are
 accepted, and a list of states that is too short is read beyond its end

---
 src/Particle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 6b39678..81c8e4a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -857,11 +857,11 @@ EventType Particle::eventType() const
 
 void Particle::setPolarisationState( const int& state )
 {
-  if( m_props->isFermion() && (state > m_props->twoSpin() || state == 0 ) ){
+  if( m_props->isFermion() && (state > m_props->twoSpin() || state < -m_props->twoSpin() || state == 0 ) ){
     WARNING("Invalid polarisation state for fermion ["<<name() << "] = " << state );
     m_polState = 999; 
   }
-  else if ( m_props->isBoson() && state > m_props->twoSpin() / 2 ){
+  else if ( m_props->isBoson() && ( state > m_props->twoSpin() / 2 || state < -m_props->twoSpin() / 2 ) ){
     WARNING("Invalid polarisation state for boson ["<< name() <<"] = " << state );
     m_polState = 999 ;
   }
@@ -873,8 +873,9 @@ void Particle::setPolarisationState( const int& state )
 
 void Particle::setPolarisationState( const std::vector<int>& state )
 {
-  setPolarisationState( state[0] );
   auto fs = getFinalStateParticles();
+  if( state.size() < fs.size() + 1 ) FATAL("Expecting " << fs.size() + 1 << " polarisation states for " << m_uniqueString << ", got " << state.size() );
+  setPolarisationState( state[0] );
   for(size_t i = 0 ; i < fs.size(); ++i ) fs[i]->setPolarisationState( state[i+1] );
   m_uniqueString = makeUniqueString();
 }
-- 
2.43.0


From ad71ddbeed84d256e977531548fafcb2fb820932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 103/154] fix: an options file that imports itself is read
 until the stack overflows

---
 AmpGen/OptionsParser.h | 1 +
 src/OptionsParser.cpp  | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/AmpGen/OptionsParser.h b/AmpGen/OptionsParser.h
index 303de33..2067390 100644
--- a/AmpGen/OptionsParser.h
+++ b/AmpGen/OptionsParser.h
@@ -38,6 +38,7 @@ namespace AmpGen
     }; 
     std::vector<std::string>                          m_allowedArguments; 
     std::vector<std::string>                          m_orderedKeys; 
+    std::vector<std::string>                          m_importing; ///< files that are being read
     std::map<std::string, std::vector<std::string>>   m_parsedLines; 
     std::map<std::string, std::function<void(std::vector<std::string>)> > m_keywords;
     bool m_printHelp = {false};  
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 724d3a0..9db65a6 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -87,6 +87,12 @@ void OptionsParser::import( const std::string& fName )
     ERROR( "Cannot find file: " << fName );
     return;
   }
+  if ( std::find( m_importing.begin(), m_importing.end(), fName ) != m_importing.end() ) {
+    ERROR( "File imports itself: " << fName );
+    return;
+  }
+  m_importing.push_back( fName );
+  struct Finish { std::vector<std::string>& files; ~Finish(){ files.pop_back(); } } finish{ m_importing };
   int braceDepth = 0 ; 
   std::vector<std::string> currentTokens; 
   processFile( fName, [this, &currentTokens, &braceDepth]( const auto& line ) mutable {
-- 
2.43.0


From 7495b63161246b7765045dbf1eabd2e5c5f7e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 104/154] fix: the spin-orbit couplings of a particle that does
 not decay to two bodies read beyond its daughters

---
 src/Particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 81c8e4a..bb90515 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -652,6 +652,7 @@ std::pair<size_t, size_t> Particle::orbitalRange( const bool& conserveParity ) c
 
 std::vector<std::pair<double,double>> Particle::spinOrbitCouplings( const bool& conserveParity ) const 
 {   
+  if( m_daughters.size() != 2 ) FATAL("Spin-orbit couplings are only defined for two-body decays: " << uniqueString() );
   auto lRange = orbitalRange( conserveParity );
   std::vector<std::pair<double, double>> lsCouplings; 
   const double J  = m_props->twoSpin() / 2.0;
-- 
2.43.0


From d8848fe83131fb503ea18419ae6e2d37f7c6fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 105/154] fix: an event type without any names reads the first
 of them

---
 src/EventType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 2525a9f..68dee41 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -29,7 +29,7 @@ EventType::EventType( const std::vector<std::string>& particleNames, const bool&
   if ( OptionsParser::printHelp() ) return; 
 
   if ( particleNames.size() < 3 ) { // Mother plus two daughters minimum required
-    ERROR( "Not enough particles in event type: " << particleNames[0] << " size =  " << particleNames.size() );
+    ERROR( "Not enough particles in event type: " << vectorToString( particleNames, " " ) << " size =  " << particleNames.size() );
     throw std::runtime_error( "Not enough particles listed in particle names! Was it defined?" );
   }
   m_mother           = particleNames.at(0);
-- 
2.43.0


From dbd05a2cee422f177ff6a2af4e06a8809b30dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 106/154] fix: couplings with a prefix or that do not name a
 particle crash AddCPConjugate

---
 src/AddCPConjugate.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index 91747c9..2964487 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -46,10 +46,16 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     }
     std::string reOrIm = *tokens.rbegin();
     std::string pname   = tokens[0];
+    std::string prefix  = "";
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
+      if( tokens.size() == 3 ){
+        prefix = tokens[0] + "_";
+        pname  = tokens[1];
+      }
       auto test_particle = Particle(pname);
+      if( ! test_particle.isStateGood() ) continue; 
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
         //DEBUG("Skipping: " << test_particle ); 
@@ -59,7 +65,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       if( ! test.props()->hasDistinctAnti() ) continue; 
       if( cartOrPolar == "polar" )     sgn = reOrIm == "Re" ? test.CP() : 1; 
       if( cartOrPolar == "cartesian" ) sgn = test.CP();
-      new_name = test.uniqueString() +"_"+reOrIm;
+      new_name = prefix + test.uniqueString() +"_"+reOrIm;
     }
     else if( tokens.size() == 2 ) {
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
-- 
2.43.0


From 8e93108e1af76e2453633fc2c4ba8d7f1cafaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:15 +0000
Subject: [PATCH 107/154] fix: a tensor proxy with the wrong number of indices
 goes on without any, and sums of it read out of bounds

---
 src/Tensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index ae1ac0d..04e6fed 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -551,8 +551,7 @@ TensorProxy::TensorProxy(const Tensor& tensor,
   : m_tensor( tensor )
 {
   if ( m_tensor.rank() != indices.size() ) {
-    ERROR("Wrong number of indices set (#Indices=" << indices.size() << ", rank=" << m_tensor.nDim() << ")");
-    return;  
+    FATAL("Wrong number of indices set (#Indices=" << indices.size() << ", rank=" << m_tensor.nDim() << ")");
   } 
   m_indices = indices; 
   std::vector<contractor> contractions; 
-- 
2.43.0


From 6948c05eb142b1dcb44d7b9b9b7bbb6bc22b6bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 108/154] fix: K-matrix terms, poles and channels that do not
 exist are read out of bounds

---
 src/Lineshapes/GenericKmatrix.cpp | 4 ++--
 src/Lineshapes/kMatrix.cpp        | 9 +++++----
 src/Lineshapes/kMatrixSimple.cpp  | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 027a426..e019076 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -147,8 +147,8 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
       unsigned channel = 999; 
       if( tokens.size() == 3 ) channel = stoi(tokens[2])-1; 
       else channel = find_channel_index(p,pchannels); 
-      unsigned pTerm = stoi(tokens[1])-1;  
-      auto pole = poleConfigs[pTerm];
+      unsigned pTerm = stoi(tokens.at(1))-1;  
+      auto pole = poleConfigs.at(pTerm);
       Expression M;
       for ( unsigned int i = 0; i < pole.couplings.size(); ++i ) {
         M += propagator[{channel, i}] * pole.couplings[i] / (pole.s - s);
diff --git a/src/Lineshapes/kMatrix.cpp b/src/Lineshapes/kMatrix.cpp
index 5fb6569..38b3a86 100644
--- a/src/Lineshapes/kMatrix.cpp
+++ b/src/Lineshapes/kMatrix.cpp
@@ -151,9 +151,10 @@ DEFINE_LINESHAPE( kMatrix )
     ADD_DEBUG_TENSOR( F, dbexpressions );
   }
 
+  if ( tokens.empty() ) FATAL( "Modifier not found, expecting one of {scatt, pole, poleKK, prod, prodKK}" );
   if ( tokens[0] == "scatt" ) {
-    unsigned int i = stoi( tokens[1] );
-    unsigned int j = stoi( tokens[2] );
+    unsigned int i = stoi( tokens.at(1) );
+    unsigned int j = stoi( tokens.at(2) );
     Expression M;
     for ( unsigned int x = 0; x < nChannels; ++x ) {
       M = M + kMatrix[{x, i}] * F[{j, x}];
@@ -162,7 +163,7 @@ DEFINE_LINESHAPE( kMatrix )
   } else if ( tokens[0] == "pole" ) {
     Expression M;
     DEBUG( "Returning pole term" );
-    auto pole = poleConfigs[pTerm];
+    auto pole = poleConfigs.at(pTerm);
     for ( unsigned int i = 0; i < pole.couplings.size(); ++i ) {
       M = M + F[{0, i}] * pole.couplings[i];
     }
@@ -170,7 +171,7 @@ DEFINE_LINESHAPE( kMatrix )
   } else if ( tokens[0] == "poleKK" ) {
     Expression M;
     DEBUG( "Returning pole term" );
-    auto pole = poleConfigs[pTerm];
+    auto pole = poleConfigs.at(pTerm);
     for ( unsigned int i = 0; i < pole.couplings.size(); ++i ) {
       M = M + F[{1, i}] * pole.couplings[i];
     }
diff --git a/src/Lineshapes/kMatrixSimple.cpp b/src/Lineshapes/kMatrixSimple.cpp
index f4422c1..ff3b716 100644
--- a/src/Lineshapes/kMatrixSimple.cpp
+++ b/src/Lineshapes/kMatrixSimple.cpp
@@ -37,7 +37,7 @@ DEFINE_LINESHAPE( kMatrixSimple )
   std::vector<std::pair<double, double>> masses;
   for ( unsigned int i = 1; i <= nChannels; ++i ) {
     std::vector<std::string> particlesInThisChannel = NamedParameter<std::string>( "kMatrix::Channel::" + std::to_string(i) ).getVector();
-    if ( particlesInThisChannel.size() != 2 ) ERROR( "Only does two body channels for now" );
+    if ( particlesInThisChannel.size() != 2 ) FATAL( "Only does two body channels for now" );
     double m1 = ParticlePropertiesList::get( particlesInThisChannel[0] )->mass();
     double m2 = ParticlePropertiesList::get( particlesInThisChannel[1] )->mass();
     masses.emplace_back( m1, m2 );
@@ -73,7 +73,7 @@ DEFINE_LINESHAPE( kMatrixSimple )
   Tensor propagator = getPropagator( kMatrix, phaseSpace );
   Expression M;
 
-  auto pole = poleConfigs[pTerm];
+  auto pole = poleConfigs.at(pTerm);
   if ( dbexpressions != nullptr ) dbexpressions->emplace_back( "P[0,0]", propagator[{0, 0}] );
   for ( unsigned int i = 0; i < pole.couplings.size(); ++i ) 
   {
-- 
2.43.0


From 57f2c2a7d56230e6bb4016a20c457674d9da77aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:12 +0000
Subject: [PATCH 109/154] fix: coupled channels that are not defined in pairs
 are read out of bounds

---
 src/Lineshapes/CoupledChannel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index bc63708..3f0d50f 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -180,8 +180,10 @@ DEFINE_LINESHAPE( CoupledChannel )
   Expression totalWidth = 0; 
   Expression totalWidthAtPole = 0 ; 
   ADD_DEBUG( s , dbexpressions );
+  if( channels.size() % 2 != 0 ) FATAL("Channels of " << particleName << " should be pairs of decays and couplings");
   for( size_t i = 0 ; i < channels.size(); i+=2 ){
     Particle p( channels[i] ); 
+    if( ! p.isStateGood() ) FATAL("Cannot interpret the channel " << channels[i] << " of " << particleName ); 
     DEBUG( "Adding channel ... " << p.uniqueString() << " coupling = " << NamedParameter<std::string>( channels[i+1]  ) );
     Expression coupling = Parameter(channels[i+1], 0);
     totalWidth       += coupling * phaseSpace(s        , p, p.L());
-- 
2.43.0


From 6dd94bfe7da1e1c75ab7dc50673a20024737ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:12 +0000
Subject: [PATCH 110/154] fix: an event type whose mother is not known is left
 half built

---
 src/EventType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 68dee41..31b3f6b 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -39,7 +39,7 @@ EventType::EventType( const std::vector<std::string>& particleNames, const bool&
   if ( motherProperties != nullptr )
     m_motherMass = motherProperties->mass();
   else {
-    ERROR( "Particle not found: " << m_mother );
+    FATAL( "Particle not found: " << m_mother );
     return;
   }
   
-- 
2.43.0


From affef9f70e2f6455d87068778699ff58adaf4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:49 +0000
Subject: [PATCH 111/154] fix: lines of the table of LaTeX labels with fewer
 than three fields are read out of bounds

---
 src/ParticlePropertiesList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 74f292c..ef85737 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -84,7 +84,7 @@ bool ParticlePropertiesList::readLatexLabels( const std::string& name )
   m_latexLabels.clear();
   processFile( name, [this]( auto& line ) {
     auto tokens                            = split( line, ' ' );
-    this->m_latexLabels[stoi( tokens[0] )] = std::make_pair( tokens[1], tokens[2] );
+    this->m_latexLabels[stoi( tokens[0] )] = std::make_pair( tokens.at(1), tokens.at(2) );
   } );
   return true;
 }
-- 
2.43.0


From 85a0dc0c06fe929952d637155826843746addcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:49 +0000
Subject: [PATCH 112/154] fix: spins that cannot be interpreted overflow when
 they are doubled

---
 src/ParticleProperties.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index d0fd652..d2bdc83 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -236,7 +236,11 @@ void ParticleProperties::setProperty(const std::string& key, const std::string&
     else if( value.find("/") != std::string::npos ){
       m_twoSpin = lexical_cast<int>( value.substr(0, value.find("/") ) , spin_status );
     }
-    else m_twoSpin = 2 * lexical_cast<int>( value, spin_status );
+    else {
+      int spin  = lexical_cast<int>( value, spin_status );
+      spin_status &= spin > -1000 && spin < 1000;
+      m_twoSpin = spin_status ? 2 * spin : 0;
+    }
     if( spin_status == 0 ){
       ERROR("Spin of particle: " << name() << " could not be interpretted (J=" << value << ")"  );
     }
-- 
2.43.0


From 0500ed18692796568a07f5ae1a8ca26b37110374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:49 +0000
Subject: [PATCH 113/154] fix: daughters that do not exist are read out of
 bounds

---
 src/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index bb90515..8d78b1a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -266,8 +266,8 @@ Tensor Particle::Q() const
   return m_daughters[0]->P() - m_daughters[1]->P();
 }
 
-std::shared_ptr<Particle> Particle::daughter( const size_t& index ) { return ( m_daughters[index] ); }
-std::shared_ptr<Particle> Particle::daughter( const size_t& index ) const { return m_daughters[index]; }
+std::shared_ptr<Particle> Particle::daughter( const size_t& index ) { return ( m_daughters.at(index) ); }
+std::shared_ptr<Particle> Particle::daughter( const size_t& index ) const { return m_daughters.at(index); }
 
 std::shared_ptr<Particle> Particle::daughter( const std::string& name, const int& maxDepth ) const 
 {
-- 
2.43.0


From 932719e5e86ddf354688122c28fffd44c1e2c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:49 +0000
Subject: [PATCH 114/154] fix: the eta Dalitz plot of a particle that does not
 decay to three pions dereferences a null pointer

---
 src/Lineshapes/EtaDalitz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Lineshapes/EtaDalitz.cpp b/src/Lineshapes/EtaDalitz.cpp
index e3198b5..c0e3ca8 100644
--- a/src/Lineshapes/EtaDalitz.cpp
+++ b/src/Lineshapes/EtaDalitz.cpp
@@ -12,6 +12,8 @@ using namespace AmpGen::fcn;
 
 DEFINE_GENERIC_SHAPE( EtaDalitz )
 {
+  if( p.daughter("pi+") == nullptr || p.daughter("pi-") == nullptr || p.daughter("pi0") == nullptr )
+    throw std::runtime_error("EtaDalitz requires the decay to three pions: " + p.uniqueString() );
   auto pp = *p.daughter("pi+");
   auto pm = *p.daughter("pi-");
   auto p0 = *p.daughter("pi0");
-- 
2.43.0


From bb2aad722ad4de30c999582e814a5fc38035f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:15 +0000
Subject: [PATCH 115/154] fix: a function of a library that cannot be opened is
 looked for in the libraries that are already loaded

---
 AmpGen/CompiledExpression.h |  4 +++-
 AmpGen/DynamicFCN.h         | 13 +++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/AmpGen/CompiledExpression.h b/AmpGen/CompiledExpression.h
index 90919ef..a448fcc 100644
--- a/AmpGen/CompiledExpression.h
+++ b/AmpGen/CompiledExpression.h
@@ -191,7 +191,9 @@ namespace AmpGen
         }
         bool link( const std::string& handle ) override
         {
-          return link( dlopen( handle.c_str(), RTLD_NOW ) );
+          void* lib = dlopen( handle.c_str(), RTLD_NOW );
+          if( lib == nullptr ) FATAL( "Failed to open: " << handle << " error: " << dlerror() );
+          return link( lib );
         };
         std::string arg_type(const unsigned& i ) const override
         {
diff --git a/AmpGen/DynamicFCN.h b/AmpGen/DynamicFCN.h
index a593850..8257f15 100644
--- a/AmpGen/DynamicFCN.h
+++ b/AmpGen/DynamicFCN.h
@@ -42,7 +42,8 @@ namespace AmpGen
     DynamicFCN() = default; 
     DynamicFCN( const std::string& lib, const std::string& name ) : 
       m_handle(std::make_shared<LibHandle>(dlopen( lib.c_str(), RTLD_NOW ))) {
-      set(*m_handle,name);
+      if( m_handle->handle == nullptr ) ERROR( "Failed to open: " << lib << " error: " << dlerror() );
+      else set(*m_handle,name);
     }
     DynamicFCN( void* handle, const std::string& name ) : m_handle(std::make_shared<LibHandle>(handle)) { set( handle, name ); }
     ~DynamicFCN(){ }
@@ -50,11 +51,11 @@ namespace AmpGen
     bool set( const std::string& lib, const std::string& name )
     {
       DEBUG("Linking handle: " << lib << ":" << name );
-      m_handle = std::make_shared<LibHandle>( dlopen( lib.c_str(), RTLD_NOW ) );
-      if( !m_handle ){
-        DEBUG( dlerror() );
-        return false;
-      }
+      m_fcn     = nullptr; 
+      auto next = std::make_shared<LibHandle>( dlopen( lib.c_str(), RTLD_NOW ) );
+      if( next->handle == nullptr ) ERROR( "Failed to open: " << lib << " error: " << dlerror() );
+      m_handle  = next;
+      if( m_handle->handle == nullptr ) return false;
       return set(*m_handle,name);
     }
     bool set( void* handle, const std::string& name, bool isFatal = false)
-- 
2.43.0


From 63cc75d42a2dd5599ec6098b86458af4c9950732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:15 +0000
Subject: [PATCH 116/154] fix: the failure of the compiler is ignored, and
 whatever library exists already is loaded in place of its output

---
 src/CompilerWrapper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 216051c..4481947 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -1,5 +1,6 @@
 #include "AmpGen/CompilerWrapper.h"
 
+#include <errno.h>
 #include <stdio.h>
 #include <unistd.h>
 #include <sys/wait.h>
@@ -195,10 +196,12 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
   {
     execv( argp[0], const_cast<char**>( &argp[0] ) );
     perror( "execv() in ../src/CompilerWrapper.cpp" ); // add "CompilerWrapper::Verbose true" to .opt file to diagnose
-    exit( 0 );
+    _exit( 127 );
   }
+  if( childPID < 0 ) FATAL("Could not start the compiler: " << m_cxx );
   int status = 0;   
-  waitpid( childPID, &status, 0 );
+  while( waitpid( childPID, &status, 0 ) == -1 && errno == EINTR ) {}
+  if( !WIFEXITED(status) || WEXITSTATUS(status) != 0 ) FATAL("Failed to compile " << fname << " using " << m_cxx );
 }
 
 void CompilerWrapper::preamble( std::ostream& os ) const 
-- 
2.43.0


From a5c076665e382bef52b29f07f314559fb541ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:15 +0000
Subject: [PATCH 117/154] fix: every compiled library leaks a file descriptor

---
 src/CompilerWrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 4481947..714e2ba 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -74,6 +74,7 @@ std::string CompilerWrapper::generateFilename()
   if ( status == -1 ) {
     ERROR( "Failed to generate temporary filename " << status );
   }
+  else close( status );
   std::remove( buffer );
   return buffer;
 }
-- 
2.43.0


From 049a9452281552a7874bc900663c2f9ba2ac473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:33 +0000
Subject: [PATCH 118/154] fix: concurrent compilations race for the static
 buffer of ctime

---
 src/CompilerWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 714e2ba..3f8e970 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -208,7 +208,8 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
 void CompilerWrapper::preamble( std::ostream& os ) const 
 {
   time_t now = time(0);
-  char* dt = ctime(&now);
+  char buffer[64] = "\n";
+  const char* dt = ctime_r(&now, buffer) == NULL ? "UNKNOWN\n" : buffer;
   const char* user = getenv("USER") == NULL ? "UNKNOWN" : getenv("USER");
   os << "/** Generated by " << user << " on " << dt ;
   os << " AmpGen v" << AMPGEN_MAJOR_VERSION << "." << AMPGEN_MINOR_VERSION << '\n'; 
-- 
2.43.0


From 71bd511369e347e7286d9a92071fb6d50b3837c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:58 +0000
Subject: [PATCH 119/154] fix: modifiers outside of the ASCII range become
 spins of the order of the largest integer, and coupling those takes minutes

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 8d78b1a..f863962 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -183,7 +183,7 @@ void Particle::parseModifier( const std::string& mod )
       auto tmp = lexical_cast<unsigned int>(mod,status); // this is if it is a number /// 
       if( status ) m_spinConfigurationNumber = tmp;
       else {
-        m_spinConfigurationNumber = 10 + int(mod[0]);
+        m_spinConfigurationNumber = 10 + int( (unsigned char)(mod[0]) );
       }
     }
   }
-- 
2.43.0


From 01ee6b135ccc681ec890ab9d82ddad053de1bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:58 +0000
Subject: [PATCH 120/154] fix: spins in the tables of particles that cannot be
 interpreted overflow when they are doubled

---
 src/ParticleProperties.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index d2bdc83..76e54d9 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -101,7 +101,10 @@ ParticleProperties::ParticleProperties( const std::string& pdg_string )
   else if( s[8].find("/") != std::string::npos ){
     m_twoSpin = lexical_cast<int>( s[8].substr(0, s[8].find("/") ) , spin_status );
   }
-  else m_twoSpin = 2 * lexical_cast<int>( s[8], spin_status );
+  else {
+    int spin  = lexical_cast<int>( s[8], spin_status );
+    m_twoSpin = spin > -1000 && spin < 1000 ? 2 * spin : 0;
+  }
   if( spin_status == 0 ){
     DEBUG("Spin of particle: " << name() << " could not be interpretted (J=" << s[8] << ")"  );
   }
-- 
2.43.0


From 7d5b5fca68c2be92f9daa5145710f6387ab114fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:43 +0000
Subject: [PATCH 121/154] fix: particles whose id cannot be negated are
 accepted

---
 src/ParticleProperties.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 76e54d9..ba46a14 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <vector>
 #include <cmath>
+#include <limits>
 
 #include "AmpGen/ParticlePropertiesList.h"
 #include "AmpGen/MsgService.h"
@@ -80,6 +81,7 @@ ParticleProperties::ParticleProperties( const std::string& pdg_string )
   m_wErrPlus     = lexical_cast<double>( s[4], status );
   m_wErrMinus    = lexical_cast<double>( s[5], status );
   m_pdgID        = lexical_cast<int>( s[12], status );
+  if( m_pdgID == std::numeric_limits<int>::min() ) return; 
   m_Rexist       = lexical_cast<int>( s[14], status );
   m_Gparity      = chargeFromString( s[7], status );
   m_parity       = chargeFromString( s[9], status );
-- 
2.43.0


From 002ceb3aa80998a61d3cfbbf7a13468504fd05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:34 +0000
Subject: [PATCH 122/154] fix: a polarised sum deletes an event list of the
 caller after it has been given a list that it copies

---
 AmpGen/PolarisedSum.h | 2 +-
 src/PolarisedSum.cpp  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/AmpGen/PolarisedSum.h b/AmpGen/PolarisedSum.h
index 61b18b5..5be2144 100644
--- a/AmpGen/PolarisedSum.h
+++ b/AmpGen/PolarisedSum.h
@@ -43,7 +43,7 @@ namespace AmpGen
       void setEvents(EventList_type&);
       void setMC(EventList_type&);
       #if ENABLE_AVX
-        void setEvents(EventList& evts){ m_ownEvents = true; setEvents( *new EventList_type(evts)) ; };
+        void setEvents(EventList& evts){ setEvents( *new EventList_type(evts)) ; m_ownEvents = true; };
         void setMC(EventList& evts){ setMC( *new EventList_type(evts)) ; };
         double operator()(const double*, const unsigned) const; 
       #endif
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 1d0c18b..a93f4b2 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -212,6 +212,7 @@ void   PolarisedSum::setEvents( PolarisedSum::EventList_type& events )
 { 
   reset();
   if( m_events != nullptr && m_ownEvents ) delete m_events; 
+  m_ownEvents = false; 
   m_events = &events;
   m_cache.allocate( m_events, m_matrixElements); 
   m_pdfCache.allocate(&m_cache, m_probExpression); 
-- 
2.43.0


From 85208dc40bb91892066ab58f10a684781bdaa899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:35 +0000
Subject: [PATCH 123/154] fix: amplitudes of a sum over flavours are built from
 rules that have gone out of scope

---
 src/PolarisedSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index a93f4b2..c7ae371 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -98,7 +98,7 @@ PolarisedSum::PolarisedSum(const EventType& type,
     m_matrixElements.resize( r1.size() + r2.size() );
     for(unsigned i = 0 ; i != m_matrixElements.size(); ++i)
     {
-      tp.enqueue( [i, this, &r1, &r2] () mutable {
+      tp.enqueue( [i, this, r1, r2] () mutable {
         Tensor thisExpression( Tensor::dim(2) );
         DebugSymbols syms;  
         auto& [p,coupling] = i < r1.size() ? r1[i] : r2[i-r1.size()];
-- 
2.43.0


From bf32471c4ef17da10cf4dfcb555331d15f3f2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:33 +0000
Subject: [PATCH 124/154] fix: a real constant among the results of a
 vectorised function does not compile

---
 AmpGen/Complex.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 682e254..7ab6e85 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -2,6 +2,7 @@
 #define AMPGEN_COMPLEX_H 1 
 
 #include <complex>
+#include <type_traits>
 
 namespace AmpGen {
   template <typename real_t>
@@ -16,7 +17,8 @@ namespace AmpGen {
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
     explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
-    // explicit Complex( const double& arg ) : re(arg) {};
+    template <typename arg_t, typename = typename std::enable_if< std::is_arithmetic<arg_t>::value && !std::is_same<arg_t, real_t>::value>::type> 
+      explicit Complex( const arg_t& arg ) : re(arg), im(0.) {}
     inline Complex operator+=(const Complex& rhs ); 
     inline Complex operator-=(const Complex& rhs ); 
     inline Complex operator*=(const Complex& rhs ); 
-- 
2.43.0


From dc641eea3bc806fa7737b00701f8bc7b1d136eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:33 +0000
Subject: [PATCH 125/154] fix: the normalisation and components of a polarised
 sum do not follow the polarisation fraction of its probability

---
 src/PolarisedSum.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index c7ae371..9d2ed45 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -277,17 +277,15 @@ complex_t PolarisedSum::norm(const size_t& i, const size_t& j, Integrator* integ
     auto m1        = (psiIndex-m2)/s1; 
     if( m_pfVector.size() != 0 )
     {
-      if(psiIndex==0){
-        double crsqN = m_pfVector[0];
-        if(f == 0) {
-          total          += m_rho[psiIndex] * crsqN * m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
-          DEBUG(" norm total - RH  " << crsqN << " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
-          DEBUG("                = " << total);
-        } else{
-          total          += m_rho[psiIndex] * (1 - crsqN) *  m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
-          DEBUG(" norm total - LH  " << 1- crsqN <<  " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
-          DEBUG("                = " << total);
-        }
+      double crsqN = m_pfVector[0];
+      if(f == 0) {
+        total          += m_rho[psiIndex] * crsqN * m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
+        DEBUG(" norm total - RH  " << crsqN << " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
+        DEBUG("                = " << total);
+      } else{
+        total          += m_rho[psiIndex] * (1 - crsqN) *  m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f);
+        DEBUG(" norm total - LH  " << 1- crsqN <<  " * "  << m_norms[x].get(i, j, integ, ai+m1*s2+f, aj+m2*s2+f) );
+        DEBUG("                = " << total);
       }
     }
     else{
@@ -557,7 +555,8 @@ KeyedFunctors<double(Event)> PolarisedSum::componentEvaluator(const EventList_ty
           auto psiIndex  = (x-f) / s2;
           auto m2        = psiIndex % s1;
           auto m1        = (psiIndex-m2)/s1;
-          total          += this->m_rho[psiIndex] * ci * cache->get<complex_t>(event.index(),R * i + m1 * s2 + f) 
+          double wf      = this->m_pfVector.size() == 0 ? 1 : ( f == 0 ? double(this->m_pfVector[0]) : 1 - double(this->m_pfVector[0]) );
+          total          += wf * this->m_rho[psiIndex] * ci * cache->get<complex_t>(event.index(),R * i + m1 * s2 + f) 
                                        * std::conj( cj * cache->get<complex_t>(event.index(),R * j + m2 * s2 + f) );
         }
         return s * std::real(total);
-- 
2.43.0


From 93625f6cce187e637d9c89e5745be72e9326da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:01 +0000
Subject: [PATCH 126/154] fix: the transverse vector polarisation of a spin-one
 particle is too small by the square root of three, so that its decay depends
 on the choice of axes

---
 src/PolarisedSum.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 9d2ed45..fd8145f 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -151,9 +151,9 @@ std::vector<complex_t> densityMatrix(const unsigned& dim, const std::vector<Minu
     double Txy = pv[5];
     double Txz = pv[6];
     double Tyz = pv[7];
-    return {1 + 1.5*pz + sqrt(1.5)*Tzz                   , sqrt(0.375)*(px+1i*py) + sqrt(3.)*(Txz+1i*Tyz), -sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy), 
-          sqrt(0.375)*(px-1i*py) + sqrt(3)*(Txz-1i*Tyz), 1 - sqrt(6.)*Tzz                              , sqrt(0.375)*(px+1i*py) - sqrt(3.)*(Txz+1i*Tyz) ,
-         -sqrt(1.500)*( Tzz + 2.*Tyy + 2.*1i*Txy)      , sqrt(0.375)*(px-1i*py) - sqrt(3)*(Txz-1i*Tyz) , 1. - 1.5*pz + sqrt(1.5)*Tzz }; 
+    return {1 + 1.5*pz + sqrt(1.5)*Tzz                   , sqrt(1.125)*(px+1i*py) + sqrt(3.)*(Txz+1i*Tyz), -sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy), 
+          sqrt(1.125)*(px-1i*py) + sqrt(3)*(Txz-1i*Tyz), 1 - sqrt(6.)*Tzz                              , sqrt(1.125)*(px+1i*py) - sqrt(3.)*(Txz+1i*Tyz) ,
+         -sqrt(1.500)*( Tzz + 2.*Tyy + 2.*1i*Txy)      , sqrt(1.125)*(px-1i*py) - sqrt(3)*(Txz-1i*Tyz) , 1. - 1.5*pz + sqrt(1.5)*Tzz }; 
   }
   ERROR("Density matrices not implemented for state with size="<<dim);
   return {1.};
@@ -395,13 +395,13 @@ Expression PolarisedSum::probExpression(const Tensor& T_matrix, const std::vecto
     auto Txz = p[6];
     auto Tyz = p[7];
     rho(0,0) = 1 + 1.5 * pz + std::sqrt(1.5)*Tzz;
-    rho(1,0) = std::sqrt(0.375)*(px+1i*py) + std::sqrt(3.)*(Txz+1i*Tyz);
+    rho(1,0) = std::sqrt(1.125)*(px+1i*py) + std::sqrt(3.)*(Txz+1i*Tyz);
     rho(2,0) = -std::sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy); 
-    rho(0,1) = std::sqrt(0.375)*(px-1i*py) + std::sqrt(3.)*(Txz-1i*Tyz);
+    rho(0,1) = std::sqrt(1.125)*(px-1i*py) + std::sqrt(3.)*(Txz-1i*Tyz);
     rho(1,1) = 1 - std::sqrt(6.)*Tzz;
-    rho(2,1) = std::sqrt(0.375)*(px+1i*py) - std::sqrt(3.)*(Txz+1i*Tyz);
+    rho(2,1) = std::sqrt(1.125)*(px+1i*py) - std::sqrt(3.)*(Txz+1i*Tyz);
     rho(0,2) = -std::sqrt(1.5)*( Tzz + 2.*Tyy + 2.*1i*Txy); 
-    rho(1,2) = std::sqrt(0.375)*(px-1i*py) - std::sqrt(3)*(Txz-1i*Tyz);
+    rho(1,2) = std::sqrt(1.125)*(px-1i*py) - std::sqrt(3)*(Txz-1i*Tyz);
     rho(2,2) = 1. - 1.5*pz + std::sqrt(1.5)*Tzz;
   }
   Tensor TT;
-- 
2.43.0


From bb3211742728edc8382f4ee9b628499181c47599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:57 +0000
Subject: [PATCH 127/154] fix: the generated function of the external
 polarisation reads beyond it for spin-one particles, and ignores the
 polarisation fraction

---
 src/PolarisedSum.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index fd8145f..9ddd1ef 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -368,8 +368,10 @@ void PolarisedSum::generateSourceCode(const std::string& fname, const double& no
                                              convertProxies(m_pfVector, [](auto& proxy) -> Expression{ return double(proxy);} )); 
   functions.push_back( new CompiledExpression<double(const double*,  const int&)>( amp / normalisation, "FCN", m_mps, disableBatch(), includePythonBindings() ) ); 
 
-  if( m_dim.first > 1 ) {
-    auto amp_extPol = probExpression(T_matrix, {Parameter("x2",0,true), Parameter("x3",0,true), Parameter("x4",0,true)}, {} );  
+  if( m_dim.first == 2 || m_dim.first == 3 ) {
+    auto pol = convertProxies(m_pVector, [](auto& proxy) -> Expression{ return double(proxy);} ); // tensor components, if any, are those of the model
+    for( unsigned i = 0 ; i != 3; ++i ) pol[i] = Parameter("x"+std::to_string(i+2),0,true);
+    auto amp_extPol = probExpression(T_matrix, pol, convertProxies(m_pfVector, [](auto& proxy) -> Expression{ return double(proxy);} ) );  
     functions.push_back( new CompiledExpression<double(const double*, const int&, const double&, const double&, const double&)>(amp_extPol / normalisation, "FCN_extPol", m_mps, disableBatch() ) );
   }
   CompilerWrapper().compile( functions, fname,{{"EventType", m_eventType.constructor_string()},{ "MatrixElements", matrixElementNames}}  );
-- 
2.43.0


From ade01d39537bde369937c171a206674d0e538754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:20 +0000
Subject: [PATCH 128/154] fix: binning fewer than two events reads beyond them

---
 src/BinDT.cpp  | 1 +
 src/FastDT.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 9d60ebb..fd783a3 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -24,6 +24,7 @@ double nearestNeighbourVariance( std::vector<double*> evts, const size_t& index)
                 , [index]( const double* evt1, const double* evt2 ) { return *( evt1 + index ) > *( evt2 + index ); }
                 , std::max(256ul, evts.size() / 4) );
   size_t size                 = evts.size();
+  if( size < 2 ) return 0;
   double x   = dist(evts[0], evts[1]) + dist(evts[size-1], evts[size-2]); 
   double x2  = dist2(evts[0], evts[1]) + dist2(evts[size-1], evts[size-2]); 
   for ( size_t i = 1; i < size-1; ++i ) {
diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 39986d0..f08df9a 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -61,6 +61,7 @@ double nnVariance(std::vector<double*>& evts, const unsigned& index)
   auto dist2 = [&index](const double* x, const double* y){ return ( *(x+index) -*(y+index))*( *(x+index) - *(y+index) ) ;};
   std::sort( evts.begin(), evts.end(), [index]( const double* evt1, const double* evt2 ) { return *( evt1 + index ) > *( evt2 + index ); } );
   size_t size                 = evts.size();
+  if( size < 2 ) return 0;
   double x   = dist(evts[0], evts[1]) + dist(evts[size-1], evts[size-2]); 
   double x2  = dist2(evts[0], evts[1]) + dist2(evts[size-1], evts[size-2]); 
   for ( size_t i = 1; i < size-1; ++i ) {
-- 
2.43.0


From 1f94faeb790eca349a1b6bd5127cc886c9516f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:20 +0000
Subject: [PATCH 129/154] fix: a binning made from an event list and a pack of
 arguments is left without its tree

---
 src/BinDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index fd783a3..cd93dd7 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -100,7 +100,7 @@ BinDT::BinDT( const ArgumentPack& args )
 
 BinDT::BinDT( const EventList& events, const ArgumentPack& args ) : BinDT(args) 
 {
-  makeNodes( events.begin(), events.end() );
+  m_top = makeNodes( events.begin(), events.end() );
 }
 
 void BinDT::readFromStream( std::istream& stream )
-- 
2.43.0


From 412066720200292bd9f5031deecccc9826af4afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:20 +0000
Subject: [PATCH 130/154] fix: the Dalitz plot of a parent mass given
 explicitly is that of the mass the integrator was made with

---
 src/DalitzIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DalitzIntegrator.cpp b/src/DalitzIntegrator.cpp
index 3ea3e61..abfb1ec 100644
--- a/src/DalitzIntegrator.cpp
+++ b/src/DalitzIntegrator.cpp
@@ -111,7 +111,7 @@ real_v DalitzIntegrator::J( const sqCo& coords, const double& s ) const
   auto max         = std::sqrt(s)    - std::sqrt(m_s3);
   auto min         = std::sqrt(m_s1) + std::sqrt(m_s2);
   auto pA          = SQRT( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
-  auto eC          = ( m_s0 - m_s3 - mAB * mAB ) / (2*mAB);
+  auto eC          = ( s - m_s3 - mAB * mAB ) / (2*mAB);
   auto pC          = safe_sqrt( eC * eC - m_s3 );
   auto mPrime_     = coords.first;
   auto thetaPrime_ = coords.second;
@@ -134,7 +134,7 @@ void DalitzIntegrator::setEvent(const sqCo& x, real_v* event, const double& s) c
   auto pA  = SQRT( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
   auto eA  = SQRT( pA * pA + m_s1 );
   auto eB  = SQRT( pA * pA + m_s2 );
-  auto eC  = ( m_s0 - m_s3 - mAB * mAB ) / ( 2 * mAB );
+  auto eC  = ( s - m_s3 - mAB * mAB ) / ( 2 * mAB );
   auto pC  = SQRT( eC * eC - m_s3 );
   event[2]   = pA;
   event[3]   = eA;
-- 
2.43.0


From 2da0bc816a911e6630bd96babaf524d42ad642bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:20 +0000
Subject: [PATCH 131/154] fix: a fast decision tree of a single bin reads
 before its nodes

---
 src/FastDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index f08df9a..7dc605f 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -39,6 +39,7 @@ FastDT::FastDT( const ArgumentPack& args )
 
 int FastDT::findNode( const double* event ) const
 {
+  if( m_nodes.empty() ) return 0; /// only one bin
   int address = m_nodes.size()-1;
   while( m_nodes[address].index != 0 )
   {
-- 
2.43.0


From 417734099e622d2dc1e8404b85c069b029e0f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 132/154] fix: propagated errors are not numbers if a parameter
 in the covariance matrix has no uncertainty

---
 AmpGen/ErrorPropagator.h | 1 +
 src/ErrorPropagator.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/AmpGen/ErrorPropagator.h b/AmpGen/ErrorPropagator.h
index 3daf69d..0d416d3 100644
--- a/AmpGen/ErrorPropagator.h
+++ b/AmpGen/ErrorPropagator.h
@@ -74,6 +74,7 @@ namespace AmpGen
 
       template <class FCN> double derivative( FCN fcn, const size_t& i ) const
       {
+        if( m_cov( i, i ) == 0 ) return 0; /// does not contribute
         double startingValue = m_parameters[i]->mean();
         m_parameters[i]->setCurrentFitVal( startingValue + std::sqrt( m_cov( i, i ) ) );
         double plus_variation = fcn();
diff --git a/src/ErrorPropagator.cpp b/src/ErrorPropagator.cpp
index 112c4d9..5bc52f5 100644
--- a/src/ErrorPropagator.cpp
+++ b/src/ErrorPropagator.cpp
@@ -127,6 +127,7 @@ std::vector<double> LinearErrorPropagator::getVectorError( const std::function<s
   for ( unsigned int i = 0; i < N; ++i ) {
     double startingValue = m_parameters[i]->mean();
     double error         = sqrt( m_cov( i, i ) );
+    if( error == 0 ) continue; /// does not contribute
     double min           = m_parameters[i]->mean() - error;
     double max           = m_parameters[i]->mean() + error;
     // CHECK_BLINDING
-- 
2.43.0


From 7ad5086e90593c490d72a60e2625d6daafc35d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 133/154] fix: a fast decision tree that looks for the best cut
 uses the end of its list of directions

---
 src/FastDT.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 7dc605f..3d4b520 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -182,7 +182,7 @@ int FastDT::makeNodes( std::vector<double*> source, std::vector<double*> target,
     return --m_endNodeCounter;
   }
   unsigned bestIndex = 0; 
-  double bestChi2 = 0; 
+  double bestChi2 = -9999; 
   double optPos = 0;
   if( std::all_of( indexQueue.begin(), indexQueue.end(), [](auto& arg){ return arg ==-1 ; } ) ) indexQueue = makeQueue();
   std::vector<double> chi2_v( m_dim ); 
@@ -205,8 +205,9 @@ int FastDT::makeNodes( std::vector<double*> source, std::vector<double*> target,
       } 
       chi2_v[i] = chi2; 
     }
-    bestIndex = *it; 
-    *it = -1;
+    if( bestChi2 == -9999 ) return --m_endNodeCounter; 
+    bestIndex = *bestIt; 
+    *bestIt = -1;
     auto sorter = [bestIndex]( auto& a, auto& b ) { return *( a + bestIndex ) < *( b + bestIndex ); };
     parallel_sort(source.begin(), source.end(), sorter, std::max(256ul, source.size() / 4) );
     parallel_sort(target.begin(), target.end(), sorter, std::max(256ul, target.size() / 4) );
-- 
2.43.0


From 1f63529b7a4b75125fbd1b252a288a9893087c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 134/154] fix: the cuts of a fast decision tree are written
 with too few digits to be read again

---
 src/FastDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 3d4b520..feeddab 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -25,6 +25,7 @@ void FastDT::readFromStream( std::ifstream& stream, const int& n_nodes )
 
 void FastDT::serialise( std::ofstream& stream )
 {
+  stream << std::setprecision(17);
   for( auto& node : m_nodes ) stream << node.index << " " << node.left << " " << node.right << " " << node.cutValue << std::endl; 
 }
 
-- 
2.43.0


From 12b9e70ba1102c1a8737bd39e6571de09df2c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:30 +0000
Subject: [PATCH 135/154] fix: the width of a resonance counts a final state
 twice if its decays name the particles in different orders

---
 src/ThreeBodyCalculators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ThreeBodyCalculators.cpp b/src/ThreeBodyCalculators.cpp
index 15c59fa..58c65d7 100644
--- a/src/ThreeBodyCalculators.cpp
+++ b/src/ThreeBodyCalculators.cpp
@@ -186,7 +186,12 @@ ThreeBodyCalculator::ThreeBodyCalculator( const std::string& head, MinuitParamet
     for( const auto& [particle, coupling] : all_decay_paths )
     {
       auto type = particle.eventType();
-      if ( std::find( finalStates.begin(), finalStates.end(), type ) == finalStates.end() ) finalStates.push_back(type);
+      auto sameFinalState = [&type]( const EventType& other ){
+        auto a = type.finalStates();
+        auto b = other.finalStates();
+        return a.size() == b.size() && std::is_permutation( a.begin(), a.end(), b.begin() );
+      };
+      if ( std::none_of( finalStates.begin(), finalStates.end(), sameFinalState ) ) finalStates.push_back(type);
     }
   }
   if ( finalStates.size() == 0 ) FATAL("Particle: " << head << " has no integrable decay path");
-- 
2.43.0


From 6dff319cf2fbaa1fdde370f3c368c70c6026508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:30 +0000
Subject: [PATCH 136/154] fix: a graph of the width over a given range starts
 at the lower end of the spline

---
 src/ThreeBodyCalculators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThreeBodyCalculators.cpp b/src/ThreeBodyCalculators.cpp
index 58c65d7..542f1e7 100644
--- a/src/ThreeBodyCalculators.cpp
+++ b/src/ThreeBodyCalculators.cpp
@@ -91,7 +91,7 @@ TGraph* ThreeBodyCalculator::widthGraph( const size_t& steps, const double& min,
   TGraph* g = new TGraph();
   double st = (max-min)/double(steps-1);
   for ( size_t c = 0; c < steps; ++c ) {
-    double s = m_min + double( c ) * st;
+    double s = min + double( c ) * st;
     g->SetPoint( g->GetN(), s, getWidth(s) );
   }
   return g;
-- 
2.43.0


From fbbd3d149957a4d333bef226c83e854012f8a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:16 +0000
Subject: [PATCH 137/154] fix: a bin that cannot be divided with enough events
 on both sides is divided at zero

---
 src/BinDT.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index cd93dd7..b84eb5f 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -196,7 +196,7 @@ std::shared_ptr<BinDT::INode> BinDT::makeNodes( const std::vector<double*>& sour
   m_top     = makeNodes(source, target, iq, 0);
   return m_top;
 }
-double bestCut_lineSearch(const std::vector<double*>& source, 
+std::pair<double,double> bestCut_lineSearch(const std::vector<double*>& source, 
                           const std::vector<double*>& target, 
                           int index, 
                           const size_t& dim,
@@ -229,7 +229,7 @@ double bestCut_lineSearch(const std::vector<double*>& source,
       optPos  = pos;
     }
   }
-  return optPos;
+  return {optPos, maxChi2};
 }
 double BinDT::getBestPost( const std::vector<double*>& source, const std::vector<double*>& target, int index, bool verbose )
 {
@@ -284,7 +284,12 @@ std::shared_ptr<BinDT::INode> BinDT::makeNodes( std::vector<double*> source, std
   auto sorter = [&index]( const auto& a, const auto& b ) { return *( a + index ) < *( b + index ); };
   parallel_sort(source.begin(), source.end(), sorter, std::max(256ul, source.size() / 4) );
   parallel_sort(target.begin(), target.end(), sorter, std::max(256ul, target.size() / 4) );
-  double optPos = bestCut_lineSearch(source, target, index, m_dim, m_minEvents);
+  auto [optPos, chi2] = bestCut_lineSearch(source, target, index, m_dim, m_minEvents);
+  if( chi2 == -9999 ){ /// no cut leaves enough events on both sides
+    auto node = std::make_shared<EndNode>( m_endNodes.size() );
+    m_endNodes.push_back( node );
+    return node;
+  }
   auto sc = std::lower_bound( source.begin(), source.end(), optPos, [index](const auto& a, const auto& b){return b > *(a+index); } );
   auto tc = std::lower_bound( target.begin(), target.end(), optPos, [index](const auto& a, const auto& b){return b > *(a+index); } );
   std::vector<double*> sourceLeft(source.begin(), sc); 
-- 
2.43.0


From cc6c482f9ad7137a6834f71b25fbd879192c4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 138/154] fix: decays that contain themselves are expanded for
 ever

---
 src/AmplitudeRules.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index 2e0fb87..efa9be9 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -211,11 +211,26 @@ namespace {
     }
     return replaceAll( descriptor, leaf, replacement );
   }
+
+  /// Checks if expanding the undecayed particles of a decay with these rules would never end
+  bool isRecursive( const AmplitudeRules& rules, const Particle& particle, const std::vector<std::string>& ancestors = {} )
+  {
+    auto fs = particle.getFinalStateParticles();
+    return std::any_of( fs.begin(), fs.end(), [&](const auto& f){
+      if( !rules.hasDecay( f->name() ) ) return false;
+      if( std::find( ancestors.begin(), ancestors.end(), f->name() ) != ancestors.end() ) return true; 
+      auto path = ancestors;
+      path.push_back( f->name() );
+      auto decays = rules.rulesForDecay( f->name() );
+      return std::any_of( decays.begin(), decays.end(), [&](const auto& decay){ return isRecursive( rules, decay.particle(), path ); } );
+    } );
+  }
 }
 
 std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Coupling& coupling ) const 
 {
   std::vector<std::pair<Particle, TotalCoupling>> rt;
+  if( isRecursive( *this, coupling.particle() ) ) FATAL("Particles in " << coupling.name() << " decay to themselves");
   rt.emplace_back( coupling.particle(), TotalCoupling(coupling) );
   auto canDecay  = [&](const auto& particle){ return this->hasDecay(particle->name()); };
   auto canExpand = [&](const auto& coupling)
-- 
2.43.0


From af3a22648b9cae310549f649ee16309f59f6d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 139/154] fix: Gaussian constraints that cannot be configured
 are used with undefined means and widths

---
 src/ExtendLikelihoodBase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ExtendLikelihoodBase.cpp b/src/ExtendLikelihoodBase.cpp
index 99d6c21..462c995 100644
--- a/src/ExtendLikelihoodBase.cpp
+++ b/src/ExtendLikelihoodBase.cpp
@@ -21,6 +21,7 @@ void GaussianConstraint::configure( const std::string& configString,
                                     const MinuitParameterSet& mps )
 {
   auto tokens            = split( configString, ' ' );
+  if ( tokens.size() != 3 && tokens.size() != 4 ) FATAL( "Cannot interpret constraint: " << configString );
   const std::string name = tokens[1];
   if ( tokens.size() == 4 ) {
     m_mean  = stod( tokens[2] );
@@ -29,6 +30,7 @@ void GaussianConstraint::configure( const std::string& configString,
     if ( tokens[2] == "PDG" ) {
       auto split_tokens        = split( name, '_' );
       auto particle_properties = ParticlePropertiesList::get( split_tokens[0] );
+      if ( particle_properties == nullptr || split_tokens.size() != 2 ) FATAL( "No PDG property for parameter: " << name );
       if ( split_tokens[1] == "mass" ) {
         m_mean  = particle_properties->mass();
         m_sigma = particle_properties->mErrPlus();
@@ -36,13 +38,14 @@ void GaussianConstraint::configure( const std::string& configString,
         m_mean  = particle_properties->width();
         m_sigma = particle_properties->wErrPlus();
       } else {
-        ERROR( "PDG property " << split_tokens[1] << " not recognised" );
+        FATAL( "PDG property " << split_tokens[1] << " not recognised" );
       }
     }
+    else FATAL( "Cannot interpret constraint: " << configString );
   }
   m_param = mps[name];
   if ( m_param == nullptr ) {
-    ERROR( "Parameter - " << name << " not found in MPS" );
+    FATAL( "Parameter - " << name << " not found in MPS" );
   }
 }
 
-- 
2.43.0


From 01c3fc24ea6b9d66dc5732c8dadad22bb26ee0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 140/154] fix: partial width constraints drop half of the
 interference between channels

---
 src/PartialWidthConstraint.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PartialWidthConstraint.cpp b/src/PartialWidthConstraint.cpp
index c6ca142..0ecb78c 100644
--- a/src/PartialWidthConstraint.cpp
+++ b/src/PartialWidthConstraint.cpp
@@ -17,17 +17,19 @@ using namespace AmpGen;
 double PartialWidthConstraint::operator()() const
 {
 
+  /// only the upper half of the (hermitian) matrix of integrals is calculated
+  auto norm = [this]( const unsigned& i, const unsigned& j ) { return i > j ? std::conj( m_pdf->norm( j, i ) ) : m_pdf->norm( i, j ); };
   std::complex<double> numerator( 0, 0 );
   std::complex<double> denom( 0, 0 );
   for ( auto& ip : m_numComponents ) {
     for ( auto& jp : m_numComponents ) {
-      numerator += ( *m_pdf )[ip].coefficient * std::conj( ( *m_pdf )[jp].coefficient ) * m_pdf->norm( ip, jp );
+      numerator += ( *m_pdf )[ip].coefficient * std::conj( ( *m_pdf )[jp].coefficient ) * norm( ip, jp );
     }
   }
 
   for ( auto& ip : m_denComponents ) {
     for ( auto& jp : m_denComponents ) {
-      denom += ( *m_pdf )[ip].coefficient * std::conj( ( *m_pdf )[jp].coefficient ) * m_pdf->norm( ip, jp );
+      denom += ( *m_pdf )[ip].coefficient * std::conj( ( *m_pdf )[jp].coefficient ) * norm( ip, jp );
     }
   }
   double ratio = std::real( numerator ) / std::real( denom );
-- 
2.43.0


From b3e9b6351e4f297bcf36ba09d3b6faebc11346bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 141/154] fix: parameters are left at the last point tried by
 minos when Minimiser::RunMinos is set

---
 src/Minimiser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Minimiser.cpp b/src/Minimiser.cpp
index c06745d..5ba084a 100644
--- a/src/Minimiser.cpp
+++ b/src/Minimiser.cpp
@@ -233,8 +233,9 @@ bool Minimiser::doFit()
       int status  = 0;
       m_minimiser->GetMinosError(i, low, high, status);
       auto param = m_parSet->at( m_mapping[i] );
-      param->setResult( *param, param->err(), low, high  );
+      param->setResult( *( m_minimiser->X() + i ), param->err(), low, high  );
     }
+    for( unsigned i = 0 ; i != m_nParams; ++i ) m_parSet->at( m_mapping[i] )->setCurrentFitVal( *( m_minimiser->X() + i ) );
   }
 
   if( m_printLevel >= PrintLevel::Info )
-- 
2.43.0


From bd944ff3b0db8d36322238948bf748cedab91e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 142/154] fix: minos overwrites the errors of parameters that
 are not in the fit, and requires Minuit2

---
 src/Minimiser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Minimiser.cpp b/src/Minimiser.cpp
index 5ba084a..d5028d2 100644
--- a/src/Minimiser.cpp
+++ b/src/Minimiser.cpp
@@ -332,14 +332,18 @@ void Minimiser::minos( MinuitParameter* parameter )
 
   ROOT::Math::Functor f( *this, m_nParams );
   m_minimiser->SetFunction( f );
-  dynamic_cast< Minuit2::Minuit2Minimizer* >(m_minimiser)->SetTraceObject( *this );
+  if( dynamic_cast<Minuit2::Minuit2Minimizer*>(m_minimiser) != nullptr ) 
+    dynamic_cast< Minuit2::Minuit2Minimizer* >(m_minimiser)->SetTraceObject( *this );
   unsigned int index = 0; 
   for( ; index != m_nParams; ++index )
   {
     if( parameter->name() == m_parSet->at( m_mapping[index] )->name() ) break;
   }
   double v0 = parameter->mean();
-  if( index == m_nParams ) ERROR( parameter->name() << " not amongst free parameters for fit");
+  if( index == m_nParams ){
+    ERROR( parameter->name() << " not amongst free parameters for fit");
+    return;
+  }
   double low{0}, high{0};
   int status =0;
   std::vector<double> init_values ( m_minimiser->X(), m_minimiser->X() + m_nParams); 
-- 
2.43.0


From 157f8af25451733034ee4f17589de36a133879de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 143/154] fix: limits of parameters are read past the end of
 the line of a fit result

---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 97dd601..45f1ea3 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -83,7 +83,7 @@ bool FitResult::readFile( const std::string& fname )
       return nullptr;
     }
     auto args = to_vector_of_doubles( tokens.begin() + 3, tokens.end() ); 
-    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[5], args[6] );
+    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[4], args[5] );
     p->setResult(args[0], args[1], args[2], args[3]);
     return p;
   }; 
-- 
2.43.0


From 300d736a2e0fbbfd324b8a3f3cddaf6a6e8de2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 144/154] fix: copies of fit results lose the names of the
 parameters in the covariance matrix

---
 src/FitResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 45f1ea3..526b1ed 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -31,9 +31,11 @@ FitResult::FitResult( const FitResult& other )
   , m_nBins( other.nBins() )
   , m_nParam( other.nParam() )
   , m_status( other.status() )
+  , m_fitted( other.m_fitted )
   , m_observables( other.observables() )
   , m_fitFractions( other.fitFractions() )
   , m_covarianceMatrix(other.cov())
+  , m_covMapping( other.m_covMapping )
 {
 }
 
-- 
2.43.0


From a11c795bd85a26be11d0be101e28abd07dc0ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 145/154] fix: small parameters are written to fit results and
 options without their digits

---
 src/FitResult.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 526b1ed..f06e8b9 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -156,7 +156,7 @@ void FitResult::writeToFile( const std::string& fname )
 	continue;
       }
     }
-    outlog << mysprintf("Parameter %-50s %-7s %-12lf %-12lf %-12lf %-12lf %-12lf %-12lf \n", 
+    outlog << mysprintf("Parameter %-50s %-7s %-12.8g %-12.8g %-12.8g %-12.8g %-12.8g %-12.8g \n", 
         param->name().c_str(), to_string<Flag>(param->flag()).c_str(), 
         param->mean() + offset, param->err(), 
         param->errNeg(), param->errPos(), param->minInit(), param->maxInit() ); 
@@ -322,8 +322,8 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
 {
   std::set<std::string> keys;
   auto print_param = [&](auto& param) mutable {
-    std::string rt= mysprintf( " %-7s %-12lf %-12lf", to_string<Flag>(param->flag()).c_str(), param->mean(), param->err() );
-    if( param->minInit() != 0. && param->maxInit() != 0. ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
+    std::string rt= mysprintf( " %-7s %-12.8g %-12.8g", to_string<Flag>(param->flag()).c_str(), param->mean(), param->err() );
+    if( param->minInit() != 0. && param->maxInit() != 0. ) rt += mysprintf(" %-12.8g %-12.8g", param->minInit(), param->maxInit()); 
     return rt; 
   };
   auto try_add_real    = [&](const auto& key) mutable
-- 
2.43.0


From fe4b4a06f636065eb20094468a0f73f3e719ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 146/154] fix: covariances read from a fit result are those of
 other parameters when some are blind

---
 src/FitResult.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index f06e8b9..a2d036e 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -90,9 +90,10 @@ bool FitResult::readFile( const std::string& fname )
     return p;
   }; 
   std::vector<std::vector<double>> covarianceLines; 
+  std::vector<std::string> order; 
   bool isInCovariance = false; 
   unsigned j = 0; 
-  processFile( fname, [&isInCovariance, &j, this, to_parameter, to_vector_of_doubles, &covarianceLines](auto& line ) mutable {
+  processFile( fname, [&isInCovariance, &j, this, to_parameter, to_vector_of_doubles, &covarianceLines, &order](auto& line ) mutable {
     const auto tokens = split( line, ' ' );
     const auto name = tokens[0]; 
     if ( name == "Parameter" ){ 
@@ -102,7 +103,10 @@ bool FitResult::readFile( const std::string& fname )
     else if ( name == "FitQuality"  )  this->setFitQuality( line );
     else if ( name == "FitFraction" )  this->m_fitFractions.emplace_back(line);
     else if ( name == "Observable"  )  this->addToObservables( line );
-    else if ( name == "ParamsOrder" ){  isInCovariance = false; } 
+    else if ( name == "ParamsOrder" ){
+      isInCovariance = false;
+      for( size_t k = 1; k < tokens.size(); k += 2 ) order.push_back( tokens[k] );
+    } 
     else if ( name == "CovarianceMatrix"  ){  isInCovariance = true; return; }
     if( isInCovariance ){
       auto v = to_vector_of_doubles(tokens.begin(), tokens.end() ); 
@@ -110,8 +114,18 @@ bool FitResult::readFile( const std::string& fname )
     }
   } ); 
   m_covarianceMatrix.ResizeTo(j,j); 
+  /// the covariance matrix also has rows for the parameters that are not written, such as the blinding offsets
+  std::vector<size_t> rows;
+  for (const auto& param : *m_mps ) {
+    auto it = std::find( order.begin(), order.end(), param->name() );
+    rows.push_back( it == order.end() ? rows.size() : std::distance( order.begin(), it ) );
+    if( rows.back() >= covarianceLines.size() || covarianceLines[rows.back()].size() != covarianceLines.size() ){
+      ERROR("Covariance matrix in " << fname << " is incomplete");
+      return false; 
+    }
+  }
   for (size_t i = 0; i < m_covarianceMatrix.GetNcols(); ++i ) {
-    for (size_t j = 0; j < m_covarianceMatrix.GetNrows(); ++j ) m_covarianceMatrix(i, j) = covarianceLines[i][j];
+    for (size_t j = 0; j < m_covarianceMatrix.GetNrows(); ++j ) m_covarianceMatrix(i, j) = covarianceLines[rows[i]][rows[j]];
   }
   return true;
 }
-- 
2.43.0


From c283fbb22ac79e0e549a81163e7b323687623ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 147/154] fix: writing a blind parameter whose offset is not
 known dereferences a null pointer

---
 src/FitResult.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index a2d036e..30b4f72 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -164,7 +164,8 @@ void FitResult::writeToFile( const std::string& fname )
     if (param->name().find("_blind") != std::string::npos ) continue;
     double offset = 0; 
     if ( param->isBlind() ){
-      offset  =  m_mps->at(param->name()+"_blind")->mean();
+      auto blind = m_mps->find(param->name()+"_blind");
+      if ( blind != nullptr ) offset = blind->mean();
       if (!offset ){
 	WARNING("Attempting to print the unblind value of a blind parameter. Will skip the parameter.");
 	continue;
-- 
2.43.0


From 1ec590aa8002ccd95449eb545ad4a7da402628e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 148/154] fix: limits of parameters are not written to options
 when one of them is zero, or when only one part of a complex parameter has
 them

---
 src/FitResult.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 30b4f72..8bc4c33 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -336,16 +336,17 @@ void FitResult::writeOptions( const std::string& output, const std::string& inpu
 void FitResult::writeOptions( std::ostream& output_stream, const std::string& input)
 {
   std::set<std::string> keys;
-  auto print_param = [&](auto& param) mutable {
+  auto has_limits = [](const auto& param){ return param->minInit() != 0. || param->maxInit() != 0.; };
+  auto print_param = [&](auto& param, const bool& limits) mutable {
     std::string rt= mysprintf( " %-7s %-12.8g %-12.8g", to_string<Flag>(param->flag()).c_str(), param->mean(), param->err() );
-    if( param->minInit() != 0. && param->maxInit() != 0. ) rt += mysprintf(" %-12.8g %-12.8g", param->minInit(), param->maxInit()); 
+    if( limits ) rt += mysprintf(" %-12.8g %-12.8g", param->minInit(), param->maxInit()); 
     return rt; 
   };
   auto try_add_real    = [&](const auto& key) mutable
   {
     auto param = this->m_mps->find(key);
     if( param == nullptr ) return false; 
-    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param) << "\n"; 
+    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param, has_limits(param)) << "\n"; 
     keys.insert(key); 
     return true;  
   };
@@ -354,7 +355,8 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
      auto param_re = this->m_mps->find(key+"_Re");
      auto param_im = this->m_mps->find(key+"_Im");
      if( param_re == nullptr || param_im == nullptr ) return false; 
-     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re) << print_param(param_im) << "\n"; 
+     const bool limits = has_limits(param_re) || has_limits(param_im); 
+     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re, limits) << print_param(param_im, limits) << "\n"; 
      keys.insert(key+"_Re"); 
      keys.insert(key+"_Im"); 
      return true; 
-- 
2.43.0


From 6289a6c666a3c5d0baf9257f0f9c6429d9136b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 149/154] fix: complex parameters with the imaginary part first
 are not written to options

---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 8bc4c33..191c42e 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -386,7 +386,7 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
       if( name.find("_Re") != std::string::npos && m_mps->find( replaceAll( name, "_Re", "_Im") ) ) 
         try_add_complex(replaceAll(name,"_Re","")); 
       else if( name.find("_Im") != std::string::npos && m_mps->find( replaceAll( name, "_Im", "_Re") ) ) 
-        try_add_complex(replaceAll(name,"_Re",""));
+        try_add_complex(replaceAll(name,"_Im",""));
       else try_add_real(name); 
     }
   }
-- 
2.43.0


From 4d21c6d52e31e833eb15bacff28ad1f0bd9a23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 150/154] fix: lines of one word that name a parameter are read
 past their end when options are rewritten

---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 191c42e..435d4db 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -370,7 +370,7 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
       auto tokens = split(line, ' ');
       if( tokens.size() == 0 ) { output_stream << line << "\n" ; return ;  } 
       auto key = tokens[0];
-      if( ( m_mps->find(key) or m_mps->find(key +"_Re") or m_mps->find(key+"_Im") ) && tokens[1] != "=" )
+      if( ( m_mps->find(key) or m_mps->find(key +"_Re") or m_mps->find(key+"_Im") ) && tokens.size() > 1 && tokens[1] != "=" )
       {
         success &= try_add_real(key) ? 1 : try_add_complex(key); 
       }
-- 
2.43.0


From dad092866898b7abc7e5661c207e74d01d8a7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 151/154] fix: decay products that are added, replaced or
 expanded do not know they have a parent, and the descriptor still shows the
 old decay

---
 src/Particle.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index f863962..a8f785a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -418,6 +418,7 @@ void Particle::setOrdering( const std::vector<size_t>& ordering )
 void Particle::addDaughter( const std::shared_ptr<Particle>& particle ) 
 { 
   m_daughters.push_back( particle ); 
+  particle->setParent( this );
   m_uniqueString = makeUniqueString();
 }
 
@@ -820,6 +821,7 @@ double Particle::mass() const { return m_props->mass(); }
 void Particle::setDaughter( const Particle& particle, const unsigned int& index )
 {
   m_daughters[index] = std::make_shared<Particle>( particle );
+  m_daughters[index]->setParent( this );
   makeUniqueString();
 }
 
@@ -936,15 +938,22 @@ Particle Particle::clone() const
 void Particle::setDaughter( const unsigned int& index, const Particle& p )
 {
   m_daughters[index] = std::make_shared<Particle>(p);
+  m_daughters[index]->setParent( this );
+  makeUniqueString();
 }
 
 bool Particle::expand( const Particle& particle )
 {
   for( auto& d : m_daughters ) 
   {
-    if( d->name() == particle.name() && d->isStable() ){ d = std::make_shared<Particle>(particle); return true; }
+    if( d->name() == particle.name() && d->isStable() ){
+      d = std::make_shared<Particle>(particle);
+      d->setParent( this );
+      makeUniqueString();
+      return true;
+    }
     bool worked = d->expand( particle);
-    if( worked ) return true; 
+    if( worked ){ makeUniqueString(); return true; }
   }
   return false ;
 }
-- 
2.43.0


From 9418e99e60a310f05e31c786e231565dce9fa14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 152/154] fix: descriptor of the old decay after renaming a
 particle or clearing its decay products

---
 src/Particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index a8f785a..db079c8 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -741,6 +741,7 @@ Expression Particle::massSq() const { return isStable() ? mass() * mass() : make
 void Particle::clearDecayProducts()
 {
   m_daughters.clear();
+  makeUniqueString();
 }
 
 void Particle::addModifier( const std::string& mod )
@@ -755,6 +756,7 @@ void Particle::setName(const std::string& name)
   m_props  = ParticlePropertiesList::get(name);
   if( m_props == nullptr ) m_isStateGood = false;
   else m_parity = m_props->P();
+  makeUniqueString();
 }
 void Particle::setIndex( const unsigned int& index, const bool& setOri )
 {
-- 
2.43.0


From dbcd551ca2faf2139f3e9c0e1977d85befd2c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 153/154] fix: a particle is greater than itself

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index db079c8..9804d51 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -849,7 +849,7 @@ bool Particle::operator<( const Particle& other )
 
 bool Particle::operator>(const Particle& other )
 {
-  return !( *this < other );
+  return Particle( other ) < *this;
 }
 
 EventType Particle::eventType() const
-- 
2.43.0


From 4a453b0e6649939171d17718dfb4dbc1622b1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:05 +0000
Subject: [PATCH 154/154] fix: functions with debugging symbols do not compile
 without vector instructions

---
 src/CompiledExpressionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index 7dedb1f..fa26eaf 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -161,7 +161,7 @@ void CompiledExpressionBase::compile(const std::string& fname)
 
 void CompiledExpressionBase::addDebug( std::ostream& stream ) const
 {
-  stream << "#include<string>\n";
+  stream << "#include<string>\n#include \"AmpGen/Complex.h\"\n";
   stream << "extern \"C\" std::vector<std::pair< std::string, " << type_string<complex_v>() << " >> " 
     << m_progName << "_DB(" << fcnSignature() << "){\n";
   for ( auto& dep : m_debugSubexpressions ) {
-- 
2.43.0

