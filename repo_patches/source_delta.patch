From 3ae95fb47ac31397bc36e8581463c770dc910e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 01/39] fix: evaluate each definition once even when goroutines
 race or it panics

LocalValue.do looked its cache up before entering singleflight only, so a
goroutine that missed the cache just before the evaluation finished ran the
definition again. A panicking evaluation was never cached and ran again as well.
---
 grpc/federation/cel.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index f884a0c..1ec55a4 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"reflect"
+	"runtime/debug"
 	"sort"
 	"strings"
 	"sync"
@@ -372,25 +373,41 @@ type localValue interface {
 }
 
 func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
-	v.sgCache.mu.RLock()
-	if cache, exists := v.sgCache.resultMap[name]; exists {
-		v.sgCache.mu.RUnlock()
+	if cache := v.sgCache.get(name); cache != nil {
 		return cache.result, cache.err
 	}
-	v.sgCache.mu.RUnlock()
-	ret, err, _ := v.sg.Do(name, func() (any, error) {
-		ret, err := cb()
-		v.sgCache.mu.Lock()
-		v.sgCache.resultMap[name] = &singleflightCacheResult{
-			result: ret,
-			err:    err,
+	ret, err, _ := v.sg.Do(name, func() (ret any, err error) {
+		// The evaluation may have finished between the lookup above and the call of Do.
+		if cache := v.sgCache.get(name); cache != nil {
+			return cache.result, cache.err
 		}
-		v.sgCache.mu.Unlock()
-		return ret, err
+		defer func() {
+			// A panic is the result of the evaluation too: it must not run again.
+			if r := recover(); r != nil {
+				ret, err = nil, RecoverError(r, debug.Stack())
+			}
+			v.sgCache.set(name, &singleflightCacheResult{
+				result: ret,
+				err:    err,
+			})
+		}()
+		return cb()
 	})
 	return ret, err
 }
 
+func (c *singleflightCache) get(name string) *singleflightCacheResult {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	return c.resultMap[name]
+}
+
+func (c *singleflightCache) set(name string, result *singleflightCacheResult) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.resultMap[name] = result
+}
+
 func (v *LocalValue) rlock() {
 	v.mu.RLock()
 }
-- 
2.43.0


From df5dfd9ebf9a8d84ec3cfcdce0fb09c850d42b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 02/39] fix: keep the error variable of concurrent calls apart

The error of a failed call was stored in a variable shared by all definitions of
the message, so error rules and retry conditions of calls failing at the same
time were evaluated against each other's error.
---
 grpc/federation/cel.go | 68 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 1ec55a4..f66057d 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -535,6 +535,7 @@ func IgnoreAndResponse[T any, U localValue](ctx context.Context, value U, def De
 }
 
 func evalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
+	ctx = withErrorScope(ctx, value)
 	var (
 		v    T
 		errs []error
@@ -683,7 +684,7 @@ func evalMap[T localValue, U any](
 		evalValues: make(map[string]any),
 	}
 	envOpts := value.getEnvOpts()
-	for k, v := range value.getEvalValues(ctx) {
+	for k, v := range evalValuesWithError(ctx, value) {
 		iterValue.evalValues[k] = v
 	}
 	src := srcFunc(value)
@@ -747,7 +748,7 @@ func EvalCEL(ctx context.Context, req *EvalCELRequest) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	out, _, err := program.ContextEval(ctx, req.Value.getEvalValues(ctx))
+	out, _, err := program.ContextEval(ctx, evalValuesWithError(ctx, req.Value))
 	if err != nil {
 		return nil, err
 	}
@@ -886,11 +887,72 @@ func SetGRPCError(ctx context.Context, value localValue, err error) {
 			grpcErr.CustomMessages = append(grpcErr.CustomMessages, anyValue)
 		}
 	}
+	if scope := getErrorScope(ctx, value); scope != nil {
+		scope.set(grpcErr)
+		return
+	}
 	value.lock()
-	value.setEvalValue("error", grpcErr)
+	value.setEvalValue(errorVariableName, grpcErr)
 	value.unlock()
 }
 
+// errorVariableName is the name of the variable referring to the error of the call being handled.
+const errorVariableName = "error"
+
+// errorScope holds the value of the error variable for a definition.
+// Definitions of the same message run concurrently, so each of them must refer to the error of its own call.
+type errorScope struct {
+	value  localValue
+	parent *errorScope
+	mu     sync.RWMutex
+	err    *grpcfedcel.Error
+}
+
+type errorScopeKey struct{}
+
+func withErrorScope(ctx context.Context, value localValue) context.Context {
+	parent, _ := ctx.Value(errorScopeKey{}).(*errorScope)
+	return context.WithValue(ctx, errorScopeKey{}, &errorScope{value: value, parent: parent})
+}
+
+func getErrorScope(ctx context.Context, value localValue) *errorScope {
+	scope, ok := ctx.Value(errorScopeKey{}).(*errorScope)
+	if !ok || scope.value != value {
+		return nil
+	}
+	return scope
+}
+
+func evalValuesWithError(ctx context.Context, value localValue) map[string]any {
+	values := value.getEvalValues(ctx)
+	if scope := getErrorScope(ctx, value); scope != nil {
+		if err := scope.get(); err != nil {
+			values[errorVariableName] = err
+		}
+	}
+	return values
+}
+
+func (s *errorScope) set(err *grpcfedcel.Error) {
+	s.mu.Lock()
+	s.err = err
+	s.mu.Unlock()
+}
+
+// get returns the error of the definition.
+// A definition declared in an error handling block refers to the error of the definition being handled.
+func (s *errorScope) get() *grpcfedcel.Error {
+	for scope := s; scope != nil && scope.value == s.value; scope = scope.parent {
+		scope.mu.RLock()
+		err := scope.err
+		scope.mu.RUnlock()
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 type SetCELValueParam[T any] struct {
 	Value      localValue
 	Expr       string
-- 
2.43.0


From 791329f1f66f978aff1c2a7a5528b3f726fca6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 03/39] fix: end the wait between retries with the context

The generated code wraps the backoff so that backoff.Retry could not see its
context: a timeout, deadline or cancellation was noticed only at the end of the
current retry interval.
---
 grpc/federation/lib.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 3a58c24..81a6465 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -2,6 +2,7 @@ package federation
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"runtime/debug"
@@ -115,12 +116,24 @@ func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
 		}
 		res = result
 		return nil
-	}, param.BackOff); err != nil {
-		return nil, err
+	}, backoff.WithContext(param.BackOff, ctx)); err != nil {
+		// The wait for the next attempt ends with the context.
+		return nil, toStatusError(err)
 	}
 	return res, nil
 }
 
+// toStatusError converts an error of context package to the corresponding gRPC status error.
+func toStatusError(err error) error {
+	if _, ok := grpcstatus.FromError(err); ok {
+		return err
+	}
+	if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
+		return grpcstatus.FromContextError(err).Err()
+	}
+	return err
+}
+
 func ToLogAttrKey(v any) string {
 	return fmt.Sprint(v)
 }
-- 
2.43.0


From 08ee023413bad4c0e775d109135806a891057aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 04/39] fix: report the failure of a definition, not the
 cancellation it causes

A definition canceled because a concurrent one failed could be the first to
return to an outer group, so the client received the cancellation (or a status
made from it by an error rule) instead of the failure.
---
 grpc/federation/cel.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index f66057d..8ecdeae 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -524,11 +524,28 @@ type DefMap[T any, U any, V localValue] struct {
 
 func EvalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
 	_, err := value.do(def.Name, func() (any, error) {
-		return nil, evalDef(ctx, value, def)
+		return nil, withSiblingError(ctx, evalDef(ctx, value, def))
 	})
 	return err
 }
 
+// withSiblingError replaces the result of a definition evaluated under the context canceled by the failure of
+// another definition with that failure. Otherwise, the cancellation could be reported instead of its reason.
+func withSiblingError(ctx context.Context, err error) error {
+	if ctx.Err() == nil {
+		return err
+	}
+	var recoveredErr *RecoveredError
+	if errors.As(err, &recoveredErr) {
+		return err
+	}
+	cause := context.Cause(ctx)
+	if errors.Is(cause, context.Canceled) || errors.Is(cause, context.DeadlineExceeded) {
+		return err
+	}
+	return cause
+}
+
 func IgnoreAndResponse[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
 	// doesn't use cache to create response variable by same name key.
 	return evalDef(ctx, value, def)
@@ -608,8 +625,7 @@ func evalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) e
 
 func EvalDefMap[T any, U any, V localValue](ctx context.Context, value V, def DefMap[T, U, V]) error {
 	_, err := value.do(def.Name, func() (any, error) {
-		err := evalDefMap(ctx, value, def)
-		return nil, err
+		return nil, withSiblingError(ctx, evalDefMap(ctx, value, def))
 	})
 	return err
 }
-- 
2.43.0


From 30d9ca2c6007bac3907b681f726379caa174b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 05/39] fix: do not report the end of the caller's context as a
 timeout of the call

WithTimeout answered DEADLINE_EXCEEDED with its own method and timeout also when
the caller had cancelled or an earlier deadline of the caller had passed.
---
 grpc/federation/lib.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 81a6465..fbc4108 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -15,7 +15,9 @@ import (
 )
 
 func WithTimeout[T any](ctx context.Context, method string, timeout time.Duration, fn func(context.Context) (*T, error)) (*T, error) {
-	ctx, cancel := context.WithTimeout(ctx, timeout)
+	// The cause tells the own timeout from the end of the caller's context.
+	errTimeout := fmt.Errorf("%s: %w", method, context.DeadlineExceeded)
+	ctx, cancel := context.WithTimeoutCause(ctx, timeout, errTimeout)
 	defer cancel()
 
 	var (
@@ -40,6 +42,9 @@ func WithTimeout[T any](ctx context.Context, method string, timeout time.Duratio
 	}()
 	select {
 	case <-ctx.Done():
+		if !errors.Is(context.Cause(ctx), errTimeout) {
+			return nil, grpcstatus.FromContextError(ctx.Err()).Err()
+		}
 		status := grpcstatus.New(grpccodes.DeadlineExceeded, ctx.Err().Error())
 		withDetails, err := status.WithDetails(&errdetails.ErrorInfo{
 			Metadata: map[string]string{
-- 
2.43.0


From 186e095e6474de5b5a8c5eb4f8af216117023632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 06/39] fix: cancel everything of a request when a nested group
 of definitions fails

Definitions waiting for more than one other definition run in a nested errgroup.
Its failure reached the enclosing group only after the nested group had finished,
and until then the other definitions kept running and new ones were started: a
request whose failure was already certain waited for unrelated, even hanging, calls.
---
 grpc/federation/alias.go | 45 ++++++++++++++++++++--------------------
 grpc/federation/cel.go   | 21 +++++++++++++++----
 grpc/federation/error.go | 27 ++++++++++++++++++++++++
 3 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/grpc/federation/alias.go b/grpc/federation/alias.go
index 9c17c5e..127f5b2 100644
--- a/grpc/federation/alias.go
+++ b/grpc/federation/alias.go
@@ -33,29 +33,28 @@ type (
 )
 
 var (
-	StackTrace            = debug.Stack
-	LoadEnv               = envconfig.Process
-	Getenv                = os.Getenv
-	GRPCErrorf            = status.Errorf
-	NewGRPCStatus         = status.New
-	GRPCStatusFromError   = status.FromError
-	ErrorGroupWithContext = errgroup.WithContext
-	NewCELEnv             = cel.NewCustomEnv
-	NewCELVariable        = cel.Variable
-	CELLib                = cel.Lib
-	CELDoubleType         = types.DoubleType
-	CELIntType            = types.IntType
-	CELUintType           = types.UintType
-	CELBoolType           = types.BoolType
-	CELStringType         = types.StringType
-	CELBytesType          = types.BytesType
-	CELDurationType       = types.DurationType
-	CELObjectType         = cel.ObjectType
-	CELListType           = cel.ListType
-	CELNullType           = cel.NullType
-	NewCELListType        = types.NewListType
-	NewCELObjectType      = types.NewObjectType
-	NewCELMapType         = types.NewMapType
+	StackTrace          = debug.Stack
+	LoadEnv             = envconfig.Process
+	Getenv              = os.Getenv
+	GRPCErrorf          = status.Errorf
+	NewGRPCStatus       = status.New
+	GRPCStatusFromError = status.FromError
+	NewCELEnv           = cel.NewCustomEnv
+	NewCELVariable      = cel.Variable
+	CELLib              = cel.Lib
+	CELDoubleType       = types.DoubleType
+	CELIntType          = types.IntType
+	CELUintType         = types.UintType
+	CELBoolType         = types.BoolType
+	CELStringType       = types.StringType
+	CELBytesType        = types.BytesType
+	CELDurationType     = types.DurationType
+	CELObjectType       = cel.ObjectType
+	CELListType         = cel.ListType
+	CELNullType         = cel.NullType
+	NewCELListType      = types.NewListType
+	NewCELObjectType    = types.NewObjectType
+	NewCELMapType       = types.NewMapType
 )
 
 const (
diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 8ecdeae..06348cc 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -539,11 +539,10 @@ func withSiblingError(ctx context.Context, err error) error {
 	if errors.As(err, &recoveredErr) {
 		return err
 	}
-	cause := context.Cause(ctx)
-	if errors.Is(cause, context.Canceled) || errors.Is(cause, context.DeadlineExceeded) {
-		return err
+	if cause := context.Cause(ctx); isFailure(cause) {
+		return cause
 	}
-	return cause
+	return err
 }
 
 func IgnoreAndResponse[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
@@ -939,6 +938,20 @@ func getErrorScope(ctx context.Context, value localValue) *errorScope {
 	return scope
 }
 
+// isHandlingError reports whether ctx is the one of an error handling block.
+func isHandlingError(ctx context.Context) bool {
+	scope, _ := ctx.Value(errorScopeKey{}).(*errorScope)
+	for ; scope != nil; scope = scope.parent {
+		scope.mu.RLock()
+		err := scope.err
+		scope.mu.RUnlock()
+		if err != nil {
+			return true
+		}
+	}
+	return false
+}
+
 func evalValuesWithError(ctx context.Context, value localValue) map[string]any {
 	values := value.getEvalValues(ctx)
 	if scope := getErrorScope(ctx, value); scope != nil {
diff --git a/grpc/federation/error.go b/grpc/federation/error.go
index 466cbd8..af2647a 100644
--- a/grpc/federation/error.go
+++ b/grpc/federation/error.go
@@ -38,6 +38,33 @@ func GoWithRecover(eg *errgroup.Group, fn func() (any, error)) {
 	})
 }
 
+type errorGroupCancelKey struct{}
+
+// ErrorGroupWithContext returns a new group and its context like errgroup.WithContext.
+// Groups are nested along the dependencies of definitions, and the failure of a group always makes the enclosing one fail.
+// Therefore, it cancels the enclosing groups at once instead of leaving them running until the nested group has finished.
+func ErrorGroupWithContext(ctx context.Context) (*ErrorGroup, context.Context) {
+	cancelParent, _ := ctx.Value(errorGroupCancelKey{}).(context.CancelCauseFunc)
+	if isHandlingError(ctx) {
+		// The failure of a definition in an error handling block doesn't replace the error being handled.
+		cancelParent = nil
+	}
+	cancelCtx, cancel := context.WithCancelCause(ctx)
+	eg, egCtx := errgroup.WithContext(context.WithValue(cancelCtx, errorGroupCancelKey{}, cancel))
+	context.AfterFunc(egCtx, func() {
+		defer cancel(nil)
+		if ctx.Err() == nil && cancelParent != nil && isFailure(context.Cause(egCtx)) {
+			cancelParent(context.Cause(egCtx))
+		}
+	})
+	return eg, egCtx
+}
+
+// isFailure reports whether cause, which ended a context, is the failure of a definition.
+func isFailure(cause error) bool {
+	return cause != nil && !errors.Is(cause, context.Canceled) && !errors.Is(cause, context.DeadlineExceeded)
+}
+
 type ErrorWithLogAttrs struct {
 	err   error
 	level slog.Level
-- 
2.43.0


From 5f79d0684ae84788704d03d8dae56ca5e401410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 07/39] fix: keep the log attributes of sibling scopes apart

---
 grpc/federation/log/context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/log/context.go b/grpc/federation/log/context.go
index 32f00c9..b216812 100644
--- a/grpc/federation/log/context.go
+++ b/grpc/federation/log/context.go
@@ -3,6 +3,7 @@ package log
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -41,7 +42,9 @@ func Attrs(ctx context.Context) []slog.Attr {
 
 	ref.mu.RLock()
 	defer ref.mu.RUnlock()
-	return ref.attrs
+	// The attributes are inherited by several scopes.
+	// Without clipping, the scopes would append their own attributes to the same backing array.
+	return slices.Clip(ref.attrs)
 }
 
 // SetLogger set logger instance for current context.
-- 
2.43.0


From 1ec06dfb56e22fe41b8caef036debda96ea684c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 08/39] fix: wait for all the definitions an expression refers
 to

The condition of a request field, a retry condition, the message and the ignored response of an error
and the enum of a map were not taken into account when building the dependency graph.
---
 resolver/def.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 76ba0a4..8f4a0da 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -238,6 +238,8 @@ func (e *GRPCError) ReferenceNames() []string {
 	for _, def := range e.DefSet.Definitions() {
 		names = append(names, def.ReferenceNames()...)
 	}
+	names = append(names, e.Message.ReferenceNames()...)
+	names = append(names, e.IgnoreAndResponse.ReferenceNames()...)
 	for _, detail := range e.Details {
 		names = append(names, detail.ReferenceNames()...)
 	}
@@ -281,6 +283,10 @@ func (e *CallExpr) ReferenceNames() []string {
 	var names []string
 	for _, arg := range e.Request.Args {
 		names = append(names, arg.Value.ReferenceNames()...)
+		names = append(names, arg.If.ReferenceNames()...)
+	}
+	if e.Retry != nil {
+		names = append(names, e.Retry.If.ReferenceNames()...)
 	}
 	for _, grpcErr := range e.Errors {
 		names = append(names, grpcErr.ReferenceNames()...)
@@ -317,6 +323,8 @@ func (e *MapIteratorExpr) ReferenceNames() []string {
 		names = append(names, e.By.ReferenceNames()...)
 	case e.Message != nil:
 		names = append(names, e.Message.ReferenceNames()...)
+	case e.Enum != nil:
+		names = append(names, e.Enum.ReferenceNames()...)
 	}
 	return toUniqueReferenceNames(names)
 }
-- 
2.43.0


From 1f100bb5c55476493262e54a973447bad9673c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 09/39] fix: keep service variables that have a condition

A service variable with an 'if' was dropped, so nothing was evaluated and later
expressions referring to it did not compile.
---
 resolver/resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index d25fee1..fd94abb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2183,8 +2183,8 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 						builder.WithIf().Location(),
 					),
 				)
+				return nil
 			}
-			return nil
 		}
 	}
 
-- 
2.43.0


From 1d0a1d9e1b31934f1a90dcb0182e514295c86ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 10/39] fix: fail the calls of a plugin that has exited and
 make closing it safe

A call hung forever when the plugin ended without an error, or before reading the
request; closing twice or requesting a garbage collection after closing panicked;
goroutines waiting for the plugin were leaked.
---
 grpc/federation/cel/plugin.go | 36 +++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index a3a2203..c5f64fe 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -57,6 +57,7 @@ var (
 	ErrWasmContentMismatch = errors.New(
 		`grpc-federation: wasm file content mismatch`,
 	)
+	errPluginExited = errors.New("grpc-federation: plugin has already exited")
 )
 
 func NewCELPlugin(ctx context.Context, cfg CELPluginConfig) (*CELPlugin, error) {
@@ -127,6 +128,9 @@ func (p *CELPlugin) CreateInstance(ctx context.Context, celRegistry *types.Regis
 	go func() {
 		_, err := p.wasmRuntime.InstantiateModule(ctx, p.mod, modCfg)
 		instanceModErrCh <- err
+		// Nobody reads stdin or writes stdout any more. Release the pending read and write, and fail the later ones.
+		_ = stdinR.CloseWithError(errPluginExited)
+		_ = stdoutW.CloseWithError(errPluginExited)
 	}()
 
 	const gcQueueLength = 1
@@ -140,12 +144,18 @@ func (p *CELPlugin) CreateInstance(ctx context.Context, celRegistry *types.Regis
 		stdout:           stdoutR,
 		instanceModErrCh: instanceModErrCh,
 		gcQueue:          gcQueue,
+		gcDone:           make(chan struct{}),
 	}
 	// start GC thread.
 	// It is enqueued into gcQueue using the `instance.GC()` function.
 	go func() {
-		for range gcQueue {
-			instance.startGC()
+		for {
+			select {
+			case <-gcQueue:
+				instance.startGC()
+			case <-instance.gcDone:
+				return
+			}
 		}
 	}()
 	return instance
@@ -161,6 +171,8 @@ type CELPluginInstance struct {
 	closed           bool
 	mu               sync.Mutex
 	gcQueue          chan struct{}
+	gcDone           chan struct{}
+	closeOnce        sync.Once
 }
 
 const PluginProtocolVersion = 1
@@ -222,7 +234,8 @@ func (i *CELPluginInstance) write(cmd []byte) error {
 		return nil
 	}
 
-	writeCh := make(chan error)
+	// setting the buffer size to 1 ensures that the goroutine can exit even if the module instance is terminated first.
+	writeCh := make(chan error, 1)
 	go func() {
 		_, err := i.stdin.Write(cmd)
 		writeCh <- err
@@ -242,12 +255,11 @@ func (i *CELPluginInstance) Close(ctx context.Context) error {
 	i.mu.Lock()
 	defer i.mu.Unlock()
 
-	defer func() { i.closed = true }()
-	if err := i.write([]byte(exitCommand)); err != nil {
-		return err
-	}
-	close(i.gcQueue)
-	return nil
+	defer func() {
+		i.closed = true
+		i.closeOnce.Do(func() { close(i.gcDone) })
+	}()
+	return i.write([]byte(exitCommand))
 }
 
 func (i *CELPluginInstance) LibraryName() string {
@@ -375,7 +387,7 @@ func (i *CELPluginInstance) recvContent() (string, error) {
 		response string
 		err      error
 	}
-	readCh := make(chan readResult)
+	readCh := make(chan readResult, 1)
 	go func() {
 		reader := bufio.NewReader(i.stdout)
 		content, err := reader.ReadString('\n')
@@ -391,6 +403,10 @@ func (i *CELPluginInstance) recvContent() (string, error) {
 	}()
 	select {
 	case err := <-i.instanceModErrCh:
+		i.closed = true
+		if err == nil {
+			err = errPluginExited
+		}
 		return "", err
 	case result := <-readCh:
 		return result.response, result.err
-- 
2.43.0


From dae779b56580a92732424d0b6715dcc455893a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 11/39] fix: do not use error messages of plugins as format
 strings

---
 grpc/federation/cel/plugin.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index c5f64fe..d0d6b87 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -331,7 +331,7 @@ func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metada
 	defer i.mu.Unlock()
 
 	if err := i.sendRequest(fn, md, args...); err != nil {
-		return types.NewErr(err.Error())
+		return types.WrapErr(err)
 	}
 	return i.recvResponse(fn)
 }
@@ -365,15 +365,15 @@ func (i *CELPluginInstance) sendRequest(fn *CELFunction, md metadata.MD, args ..
 func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 	content, err := i.recvContent()
 	if err != nil {
-		return types.NewErr(err.Error())
+		return types.WrapErr(err)
 	}
 
 	var res plugin.CELPluginResponse
 	if err := protojson.Unmarshal([]byte(content), &res); err != nil {
-		return types.NewErr(fmt.Sprintf("grpc-federation: failed to decode response: %s", err.Error()))
+		return types.NewErr("grpc-federation: failed to decode response: %s", err.Error())
 	}
 	if res.Error != "" {
-		return types.NewErr(res.Error)
+		return types.NewErr("%s", res.Error)
 	}
 	return i.celPluginValueToRef(fn, fn.Return, res.Value)
 }
@@ -525,7 +525,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 	case types.DoubleKind:
 		return types.Double(v.GetDouble())
 	case types.ErrorKind:
-		return types.NewErr(v.GetString_())
+		return types.NewErr("%s", v.GetString_())
 	case types.IntKind:
 		return types.Int(v.GetInt64())
 	case types.StringKind:
-- 
2.43.0


From 99c7215918ae24664e07bccb0d727db408458db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 12/39] fix: report a timeout with its method when the call
 notices it first

The function run by WithTimeout returns the error of its context at the instant
of the timeout; which of both was reported depended on scheduling.
---
 grpc/federation/lib.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index fbc4108..e99d286 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -45,22 +45,34 @@ func WithTimeout[T any](ctx context.Context, method string, timeout time.Duratio
 		if !errors.Is(context.Cause(ctx), errTimeout) {
 			return nil, grpcstatus.FromContextError(ctx.Err()).Err()
 		}
-		status := grpcstatus.New(grpccodes.DeadlineExceeded, ctx.Err().Error())
-		withDetails, err := status.WithDetails(&errdetails.ErrorInfo{
-			Metadata: map[string]string{
-				"method":  method,
-				"timeout": timeout.String(),
-			},
-		})
-		if err != nil {
-			return nil, status.Err()
-		}
-		return nil, withDetails.Err()
+		return nil, timeoutError(method, timeout)
 	case err := <-errch:
+		if errors.Is(context.Cause(ctx), errTimeout) && isDeadlineExceeded(err) {
+			// The function noticed the timeout first.
+			return nil, timeoutError(method, timeout)
+		}
 		return ret, err
 	}
 }
 
+func isDeadlineExceeded(err error) bool {
+	return grpcstatus.Code(err) == grpccodes.DeadlineExceeded || errors.Is(err, context.DeadlineExceeded)
+}
+
+func timeoutError(method string, timeout time.Duration) error {
+	status := grpcstatus.New(grpccodes.DeadlineExceeded, context.DeadlineExceeded.Error())
+	withDetails, err := status.WithDetails(&errdetails.ErrorInfo{
+		Metadata: map[string]string{
+			"method":  method,
+			"timeout": timeout.String(),
+		},
+	})
+	if err != nil {
+		return status.Err()
+	}
+	return withDetails.Err()
+}
+
 type BackOff struct {
 	backoff.BackOff
 }
-- 
2.43.0


From 41a336f06d3d91967cd6745e40ee67a4b937d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 13/39] fix: keep a retry abandoned by a timeout from changing
 the error variable

The abandoned attempt set the variable "error" while the error handling rules of
the call were being evaluated.
---
 grpc/federation/lib.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index e99d286..79a768e 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -112,6 +112,8 @@ type RetryParam[T any] struct {
 }
 
 func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
+	// A retry abandoned by a timeout must not change the error variable the error handling rules refer to.
+	ctx = withErrorScope(ctx, param.Value)
 	var res *T
 	if err := backoff.Retry(func() (err error) {
 		result, err := param.Body()
-- 
2.43.0


From f5dc1afcdc37d353ec693eea20860380776a989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 14/39] fix: compiler and validator keep the options of an
 earlier call

Options like manual import that were passed to one call stayed in effect for
all later calls on the same instance.
---
 compiler/compiler.go   | 2 ++
 validator/validator.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 3dc8091..b19351c 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -148,6 +148,8 @@ type dependentProtoFileSet struct {
 // Compile compile the target Protocol Buffers file and produces all file descriptors.
 func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Option) ([]*descriptorpb.FileDescriptorProto, error) {
 	c.importPaths = []string{}
+	c.manualImport = false
+	c.importRule = false
 
 	for _, opt := range opts {
 		opt(c)
diff --git a/validator/validator.go b/validator/validator.go
index 0f46ded..a60d05e 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -55,6 +55,7 @@ func ManualImportOption() ValidatorOption {
 func (v *Validator) applyOptions(opts ...ValidatorOption) {
 	v.pathToFileMap = map[string]*source.File{}
 	v.importPaths = []string{}
+	v.manualImport = false
 	for _, opt := range opts {
 		opt(v)
 	}
-- 
2.43.0


From d6b5f9602559308a1b93d63cf5fa908c840137d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 15/39] fix: locations of diagnostics are looked up in the
 content being validated

The validator read the file from the disk to find the location of an error,
although the content passed to it may differ (an unsaved buffer), so the
position was wrong, or unknown if the file does not exist.
---
 validator/validator.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/validator/validator.go b/validator/validator.go
index a60d05e..ab2b5de 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -63,6 +63,7 @@ func (v *Validator) applyOptions(opts ...ValidatorOption) {
 
 func (v *Validator) Validate(ctx context.Context, file *source.File, opts ...ValidatorOption) []*ValidationOutput {
 	v.applyOptions(opts...)
+	v.addFile(file)
 	var compilerOpts []compiler.Option
 	compilerOpts = append(compilerOpts, compiler.ImportPathOption(v.importPaths...))
 	if v.manualImport {
@@ -79,11 +80,25 @@ func (v *Validator) Validate(ctx context.Context, file *source.File, opts ...Val
 	}
 	r := resolver.New(protos, resolver.ImportPathOption(v.importPaths...))
 	result, err := r.Resolve()
-	return v.ToValidationOutputByResolverResult(result, err, opts...)
+	return v.toValidationOutputs(result, err)
+}
+
+// addFile registers the file to be validated under the name the compiler gives it,
+// so that locations are looked up in the given content even if the one on the disk differs.
+func (v *Validator) addFile(file *source.File) {
+	path, err := compiler.RelativePathFromImportPaths(file.Path(), v.importPaths)
+	if err != nil {
+		return
+	}
+	v.pathToFileMap[path] = file
 }
 
 func (v *Validator) ToValidationOutputByResolverResult(result *resolver.Result, err error, opts ...ValidatorOption) []*ValidationOutput {
 	v.applyOptions(opts...)
+	return v.toValidationOutputs(result, err)
+}
+
+func (v *Validator) toValidationOutputs(result *resolver.Result, err error) []*ValidationOutput {
 	var outs []*ValidationOutput
 	if result != nil {
 		outs = v.toValidationOutputByWarnings(result.Warnings)
-- 
2.43.0


From 7febb721c3dcf05ae0b964b2f7e662a3277a82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 16/39] fix: resolver panics if the response type of a method
 could not be resolved

---
 resolver/resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index fd94abb..21ba58f 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -768,6 +768,10 @@ func (r *Resolver) validateService(ctx *context, svc *Service) {
 func (r *Resolver) validateMethodResponse(ctx *context, service *Service) {
 	for _, method := range service.Methods {
 		response := method.FederationResponse()
+		if response == nil {
+			// the error that the type could not be resolved has already been added.
+			continue
+		}
 		if response.Rule == nil {
 			ctx.addError(
 				ErrWithLocation(
-- 
2.43.0


From c3dc63f884e3952b622192ac9018e71cc372ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 17/39] fix: language server publishes outdated or no
 diagnostics

Concurrent validations could publish the diagnostics of an older content last,
a validation that panics or fails published nothing, and an unknown position
was published as a huge line number.
---
 lsp/server/handler.go   |  1 +
 lsp/server/validator.go | 64 ++++++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/lsp/server/handler.go b/lsp/server/handler.go
index 9b34464..8a2b18b 100644
--- a/lsp/server/handler.go
+++ b/lsp/server/handler.go
@@ -21,6 +21,7 @@ type Handler struct {
 	compiler                      *compiler.Compiler
 	validator                     *validator.Validator
 	completer                     *Completer
+	validateMu                    sync.Mutex
 	fileContentMu                 sync.Mutex
 	fileToContentMap              map[string][]byte
 	tokenTypeMap                  map[string]uint32
diff --git a/lsp/server/validator.go b/lsp/server/validator.go
index 236455b..8e399df 100644
--- a/lsp/server/validator.go
+++ b/lsp/server/validator.go
@@ -3,8 +3,11 @@ package server
 
 import (
 	"context"
+	"fmt"
 	"log/slog"
+	"runtime/debug"
 
+	"github.com/bufbuild/protocompile/ast"
 	"go.lsp.dev/protocol"
 	"go.lsp.dev/uri"
 
@@ -13,25 +16,41 @@ import (
 )
 
 func (h *Handler) validateText(ctx context.Context, docURI uri.URI) {
+	// The content is taken, validated and published under the lock.
+	// Otherwise, the diagnostics of an old content might be published last.
+	h.validateMu.Lock()
+	defer h.validateMu.Unlock()
+
 	path, content, err := h.getFile(docURI)
 	if err != nil {
 		return
 	}
+	if err := h.client.PublishDiagnostics(ctx, &protocol.PublishDiagnosticsParams{
+		URI:         docURI,
+		Diagnostics: h.diagnostics(ctx, path, content),
+	}); err != nil {
+		h.logger.Error("failed to publish diagnostics", slog.String("error", err.Error()))
+	}
+}
+
+func (h *Handler) diagnostics(ctx context.Context, path string, content []byte) (diagnostics []protocol.Diagnostic) {
+	defer func() {
+		if err := recover(); err != nil {
+			h.logger.Error(
+				"recovered",
+				slog.Any("error", err),
+				slog.String("stack_trace", string(debug.Stack())),
+			)
+			diagnostics = []protocol.Diagnostic{errorDiagnostic(fmt.Sprintf("failed to validate: %v", err))}
+		}
+	}()
 	file, err := source.NewFile(path, content)
 	if err != nil {
-		return
+		return []protocol.Diagnostic{errorDiagnostic(err.Error())}
 	}
 	errs := h.validator.Validate(ctx, file, validator.ImportPathOption(h.importPaths...))
-	diagnostics := make([]protocol.Diagnostic, 0, len(errs))
+	diagnostics = make([]protocol.Diagnostic, 0, len(errs))
 	for _, err := range errs {
-		start := protocol.Position{
-			Line:      uint32(err.Start.Line) - 1,
-			Character: uint32(err.Start.Col) - 1,
-		}
-		end := protocol.Position{
-			Line:      uint32(err.End.Line) - 1,
-			Character: uint32(err.End.Col) - 1,
-		}
 		var severity protocol.DiagnosticSeverity
 		if err.IsWarning {
 			severity = protocol.DiagnosticSeverityWarning
@@ -40,14 +59,27 @@ func (h *Handler) validateText(ctx context.Context, docURI uri.URI) {
 		}
 		diagnostics = append(diagnostics, protocol.Diagnostic{
 			Severity: severity,
-			Range:    protocol.Range{Start: start, End: end},
+			Range:    protocol.Range{Start: toPosition(err.Start), End: toPosition(err.End)},
 			Message:  err.Message,
 		})
 	}
-	if err := h.client.PublishDiagnostics(ctx, &protocol.PublishDiagnosticsParams{
-		URI:         docURI,
-		Diagnostics: diagnostics,
-	}); err != nil {
-		h.logger.Error("failed to publish diagnostics", slog.String("error", err.Error()))
+	return diagnostics
+}
+
+func errorDiagnostic(msg string) protocol.Diagnostic {
+	return protocol.Diagnostic{
+		Severity: protocol.DiagnosticSeverityError,
+		Message:  msg,
+	}
+}
+
+// toPosition returns the beginning of the document if the position is unknown.
+func toPosition(pos ast.SourcePos) protocol.Position {
+	if pos.Line <= 0 || pos.Col <= 0 {
+		return protocol.Position{}
+	}
+	return protocol.Position{
+		Line:      uint32(pos.Line) - 1,
+		Character: uint32(pos.Col) - 1,
 	}
 }
-- 
2.43.0


From a264cfeaf8008aa534a115f19189e37d3eceded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 18/39] fix: language server does not reply to a request if the
 handler panics

---
 lsp/server/server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lsp/server/server.go b/lsp/server/server.go
index 9778c7e..f32c430 100644
--- a/lsp/server/server.go
+++ b/lsp/server/server.go
@@ -81,7 +81,12 @@ func New(opts ...ServerOption) *Server {
 func (s *Server) customServerHandler() jsonrpc2.Handler {
 	orgHandler := protocol.ServerHandler(s.handler, nil)
 
-	return func(ctx context.Context, reply jsonrpc2.Replier, req jsonrpc2.Request) error {
+	return func(ctx context.Context, baseReply jsonrpc2.Replier, req jsonrpc2.Request) (e error) {
+		replied := false
+		reply := func(ctx context.Context, result interface{}, err error) error {
+			replied = true
+			return baseReply(ctx, result, err)
+		}
 		defer func() {
 			if err := recover(); err != nil {
 				s.handler.logger.Error(
@@ -89,6 +94,9 @@ func (s *Server) customServerHandler() jsonrpc2.Handler {
 					slog.Any("error", err),
 					slog.String("stack_trace", string(debug.Stack())),
 				)
+				if !replied {
+					e = reply(ctx, nil, jsonrpc2.Errorf(jsonrpc2.InternalError, "%v", err))
+				}
 			}
 		}()
 		if ctx.Err() != nil {
-- 
2.43.0


From a728cce99fc132120a1376805a09850559707516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 19/39] fix: language server ignores the opened text and does
 not forget closed documents

The text of didOpen was ignored, the one of the last didChange was used even
after the document had been closed, and definitions in other documents were
looked up on the disk although they are open.
---
 lsp/server/definition.go         |  4 ++--
 lsp/server/handler.go            |  4 ++--
 lsp/server/text_document_sync.go | 32 ++++++++++++++++++++++++--------
 lsp/server/util.go               | 31 +++++++++++++++++++++----------
 4 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/lsp/server/definition.go b/lsp/server/definition.go
index 2ca5ef4..486e5e8 100644
--- a/lsp/server/definition.go
+++ b/lsp/server/definition.go
@@ -152,7 +152,7 @@ func (h *Handler) findTypeDefinition(path string, protoFiles []*descriptorpb.Fil
 	if filePath == "" {
 		return nil, err
 	}
-	content, err := os.ReadFile(filePath)
+	content, err := h.readFile(filePath)
 	if err != nil {
 		return nil, err
 	}
@@ -192,7 +192,7 @@ func (h *Handler) findMethodDefinition(path string, protoFiles []*descriptorpb.F
 	if filePath == "" {
 		return nil, err
 	}
-	content, err := os.ReadFile(filePath)
+	content, err := h.readFile(filePath)
 	if err != nil {
 		return nil, err
 	}
diff --git a/lsp/server/handler.go b/lsp/server/handler.go
index 8a2b18b..c344496 100644
--- a/lsp/server/handler.go
+++ b/lsp/server/handler.go
@@ -147,12 +147,12 @@ func (h *Handler) DidChangeWorkspaceFolders(ctx context.Context, params *protoco
 
 func (h *Handler) DidClose(ctx context.Context, params *protocol.DidCloseTextDocumentParams) error {
 	h.logger.Info("DidClose", slog.Any("params", params))
-	return nil
+	return h.didClose(ctx, params)
 }
 
 func (h *Handler) DidOpen(ctx context.Context, params *protocol.DidOpenTextDocumentParams) error {
 	h.logger.Info("DidOpen", slog.Any("params", params))
-	return nil
+	return h.didOpen(ctx, params)
 }
 
 func (h *Handler) DidSave(ctx context.Context, params *protocol.DidSaveTextDocumentParams) error {
diff --git a/lsp/server/text_document_sync.go b/lsp/server/text_document_sync.go
index f084617..e92db14 100644
--- a/lsp/server/text_document_sync.go
+++ b/lsp/server/text_document_sync.go
@@ -2,22 +2,38 @@ package server
 
 import (
 	"context"
-	"fmt"
-	"net/url"
 
 	"go.lsp.dev/protocol"
-	"go.lsp.dev/uri"
 )
 
-func (h *Handler) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
-	parsedURI, err := url.ParseRequestURI(string(params.TextDocument.URI))
+func (h *Handler) didOpen(_ context.Context, params *protocol.DidOpenTextDocumentParams) error {
+	path, err := h.filePath(params.TextDocument.URI)
+	if err != nil {
+		return err
+	}
+	h.fileContentMu.Lock()
+	h.fileToContentMap[path] = []byte(params.TextDocument.Text)
+	h.fileContentMu.Unlock()
+	return nil
+}
+
+func (h *Handler) didClose(_ context.Context, params *protocol.DidCloseTextDocumentParams) error {
+	path, err := h.filePath(params.TextDocument.URI)
 	if err != nil {
 		return err
 	}
-	if parsedURI.Scheme != uri.FileScheme {
-		return fmt.Errorf("text document uri must specify the %s scheme, got %v", uri.FileScheme, parsedURI.Scheme)
+	// From now on, the content on the disk is the right one.
+	h.fileContentMu.Lock()
+	delete(h.fileToContentMap, path)
+	h.fileContentMu.Unlock()
+	return nil
+}
+
+func (h *Handler) didChange(ctx context.Context, params *protocol.DidChangeTextDocumentParams) error {
+	path, err := h.filePath(params.TextDocument.URI)
+	if err != nil {
+		return err
 	}
-	path := parsedURI.Path
 	h.fileContentMu.Lock()
 	for _, change := range params.ContentChanges {
 		h.fileToContentMap[path] = []byte(change.Text)
diff --git a/lsp/server/util.go b/lsp/server/util.go
index 39b9d74..51898d6 100644
--- a/lsp/server/util.go
+++ b/lsp/server/util.go
@@ -8,25 +8,36 @@ import (
 	"go.lsp.dev/uri"
 )
 
-func (h *Handler) getFile(docURI uri.URI) (string, []byte, error) {
+func (h *Handler) filePath(docURI uri.URI) (string, error) {
 	parsedURI, err := url.ParseRequestURI(string(docURI))
 	if err != nil {
-		return "", nil, err
+		return "", err
 	}
 	if parsedURI.Scheme != uri.FileScheme {
-		return "", nil, fmt.Errorf("text document uri must specify the %s scheme, got %v", uri.FileScheme, parsedURI.Scheme)
+		return "", fmt.Errorf("text document uri must specify the %s scheme, got %v", uri.FileScheme, parsedURI.Scheme)
 	}
-	path := parsedURI.Path
+	return parsedURI.Path, nil
+}
 
+func (h *Handler) getFile(docURI uri.URI) (string, []byte, error) {
+	path, err := h.filePath(docURI)
+	if err != nil {
+		return "", nil, err
+	}
+	content, err := h.readFile(path)
+	if err != nil {
+		return "", nil, err
+	}
+	return path, content, nil
+}
+
+// readFile returns the content the client has for the file, or the one on the disk.
+func (h *Handler) readFile(path string) ([]byte, error) {
 	h.fileContentMu.Lock()
 	content, exists := h.fileToContentMap[path]
 	h.fileContentMu.Unlock()
 	if exists {
-		return path, content, nil
-	}
-	file, err := os.ReadFile(path)
-	if err != nil {
-		return "", nil, err
+		return content, nil
 	}
-	return path, file, nil
+	return os.ReadFile(path)
 }
-- 
2.43.0


From b7280aa352ff16d0065c6ceebfa8553db8c824ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 20/39] fix: watcher loses events and does not end with its
 context

Events that occurred while the handler was working were dropped, so a change
could be missed for good. Overflows were only logged, files in directories
created later were not seen, Run ignored the cancellation of its context and
kept spinning after the event source had been closed, and every path below a
directory like "./proto" was ignored because it begins with a dot.
---
 generator/watcher.go | 112 +++++++++++++++++++++++++++++++++----------
 1 file changed, 88 insertions(+), 24 deletions(-)

diff --git a/generator/watcher.go b/generator/watcher.go
index 8bbeec0..bb3d159 100644
--- a/generator/watcher.go
+++ b/generator/watcher.go
@@ -2,6 +2,8 @@ package generator
 
 import (
 	"context"
+	"errors"
+	"io/fs"
 	"log"
 	"os"
 	"path/filepath"
@@ -18,6 +20,8 @@ type Watcher struct {
 	eventCh     chan fsnotify.Event
 	handler     func(context.Context, fsnotify.Event)
 	watcher     *fsnotify.Watcher
+	paths       []string
+	dirs        map[string]struct{}
 }
 
 func NewWatcher() (*Watcher, error) {
@@ -29,6 +33,7 @@ func NewWatcher() (*Watcher, error) {
 		eventCh: make(chan fsnotify.Event),
 		handler: func(context.Context, fsnotify.Event) {},
 		watcher: watcher,
+		dirs:    make(map[string]struct{}),
 	}, nil
 }
 
@@ -41,6 +46,7 @@ func (w *Watcher) SetHandler(handler func(ctx context.Context, event fsnotify.Ev
 }
 
 func (w *Watcher) SetWatchPath(path ...string) error {
+	w.paths = append(w.paths, path...)
 	return w.setWatchPathRecursive(path...)
 }
 
@@ -54,9 +60,6 @@ func (w *Watcher) setWatchPathRecursive(path ...string) error {
 			if !info.IsDir() {
 				return nil
 			}
-			if strings.HasPrefix(path, ".") {
-				return nil
-			}
 			pathMap[path] = struct{}{}
 			return nil
 		}); err != nil {
@@ -65,56 +68,117 @@ func (w *Watcher) setWatchPathRecursive(path ...string) error {
 	}
 	for path := range pathMap {
 		if err := w.watcher.Add(path); err != nil {
+			if errors.Is(err, fs.ErrNotExist) {
+				// removed in the meantime.
+				continue
+			}
 			return err
 		}
+		w.dirs[filepath.Clean(path)] = struct{}{}
 	}
 	return nil
 }
 
+// Run calls the handler for every event until the context is done or the watcher is closed.
 func (w *Watcher) Run(ctx context.Context) error {
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.Go(func() error {
-		w.sendEventLoop()
-		return nil
+		defer close(w.eventCh)
+		return w.sendEventLoop(ctx)
 	})
 	eg.Go(func() error {
 		w.receiveEventLoop(ctx)
 		return nil
 	})
-	if err := eg.Wait(); err != nil {
-		return err
-	}
-	return nil
+	return eg.Wait()
 }
 
-func (w *Watcher) sendEventLoop() {
+// sendEventLoop keeps the events that occur while the handler is working in a queue.
+func (w *Watcher) sendEventLoop(ctx context.Context) error {
+	var queue []fsnotify.Event
 	for {
+		var (
+			eventCh chan<- fsnotify.Event
+			first   fsnotify.Event
+		)
+		if len(queue) != 0 {
+			eventCh = w.eventCh
+			first = queue[0]
+		}
 		select {
+		case <-ctx.Done():
+			return ctx.Err()
 		case event, ok := <-w.watcher.Events:
 			if !ok {
-				continue
+				return nil
+			}
+			if w.handleEvent(event) {
+				queue = appendEvent(queue, event)
 			}
-			w.handleEvent(event)
 		case err, ok := <-w.watcher.Errors:
 			if !ok {
-				continue
+				return nil
 			}
 			log.Println("error:", err)
+			if errors.Is(err, fsnotify.ErrEventOverflow) {
+				// Since there are lost events, everything may have been changed.
+				w.updateWatchPath()
+				for _, path := range w.paths {
+					queue = appendEvent(queue, fsnotify.Event{Name: path, Op: fsnotify.Write})
+				}
+			}
+		case eventCh <- first:
+			queue = queue[1:]
 		}
 	}
 }
 
-func (w *Watcher) handleEvent(event fsnotify.Event) {
-	if w.IsWorking() {
-		return
+// appendEvent appends the event unless the last queued event for the same path is the same.
+func appendEvent(queue []fsnotify.Event, event fsnotify.Event) []fsnotify.Event {
+	for i := len(queue) - 1; i >= 0; i-- {
+		if queue[i].Name != event.Name {
+			continue
+		}
+		if queue[i].Op == event.Op {
+			return queue
+		}
+		break
 	}
+	return append(queue, event)
+}
+
+// handleEvent reports whether the handler should be called for the event.
+func (w *Watcher) handleEvent(event fsnotify.Event) bool {
 	if !w.isModified(event) {
-		return
+		return false
+	}
+	if w.isDirectory(event) {
+		w.updateWatchPath()
+		return true
+	}
+	return !w.ignoreFilePath(event.Name)
+}
+
+// isDirectory whether a directory in which proto files may be has appeared or disappeared.
+func (w *Watcher) isDirectory(event fsnotify.Event) bool {
+	path := filepath.Clean(event.Name)
+	if event.Has(fsnotify.Remove) || event.Has(fsnotify.Rename) {
+		if _, exists := w.dirs[path]; exists {
+			delete(w.dirs, path)
+			return true
+		}
 	}
-	if w.ignoreFilePath(event.Name) {
-		return
+	if event.Has(fsnotify.Create) {
+		info, err := os.Stat(path)
+		return err == nil && info.IsDir()
+	}
+	return false
+}
+
+func (w *Watcher) updateWatchPath() {
+	if err := w.setWatchPathRecursive(w.paths...); err != nil {
+		log.Println("error:", err)
 	}
-	w.eventCh <- event
 }
 
 func (w *Watcher) isModified(ev fsnotify.Event) bool {
@@ -125,10 +189,11 @@ func (w *Watcher) isModified(ev fsnotify.Event) bool {
 }
 
 func (w *Watcher) ignoreFilePath(path string) bool {
-	if strings.HasPrefix(path, "#") {
+	name := filepath.Base(path)
+	if strings.HasPrefix(name, "#") {
 		return true
 	}
-	if strings.HasPrefix(path, ".") {
+	if strings.HasPrefix(name, ".") {
 		return true
 	}
 	if filepath.Ext(path) != ".proto" {
@@ -138,8 +203,7 @@ func (w *Watcher) ignoreFilePath(path string) bool {
 }
 
 func (w *Watcher) receiveEventLoop(ctx context.Context) {
-	for {
-		event := <-w.eventCh
+	for event := range w.eventCh {
 		w.setWorking(true)
 		w.handler(ctx, event)
 		w.setWorking(false)
-- 
2.43.0


From 3940d80d360131090db3e53cf006762cdf693252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 21/39] fix: watch mode leaves outdated outputs behind

The handler relied on the kind of the event, although the file may have been
changed again since. Files importing the changed one and files that failed
before were not generated again, outputs that are not generated anymore were
not removed, a failed generation lost the cached result, and an error while
starting left the watcher open.
---
 generator/generator.go | 201 +++++++++++++++++++++++++++++++++++------
 1 file changed, 172 insertions(+), 29 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index ee1290b..0bd5083 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -10,10 +10,13 @@ import (
 	"io"
 	"io/fs"
 	"log"
+	"maps"
 	"net/http"
 	"os"
 	"os/exec"
 	"path/filepath"
+	"slices"
+	"sort"
 	"strings"
 
 	"github.com/fsnotify/fsnotify"
@@ -46,6 +49,10 @@ type Generator struct {
 	postProcessHandler        PostProcessHandler
 	buildCacheMap             BuildCacheMap
 	absPathToRelativePath     map[string]string
+	// absPathToImports the import names of all the compiled proto files.
+	absPathToImports map[string][]string
+	// failedPaths proto files that could not be generated in watch mode.
+	failedPaths map[string]struct{}
 }
 
 type Option func(*Generator) error
@@ -93,6 +100,7 @@ func WatchMode() func(*Generator) error {
 			return err
 		}
 		if err := g.setWatcher(w); err != nil {
+			w.Close()
 			return err
 		}
 		return nil
@@ -134,6 +142,8 @@ func New(cfg Config) *Generator {
 		validator:             validator.New(),
 		importPaths:           cfg.Imports,
 		absPathToRelativePath: make(map[string]string),
+		absPathToImports:      make(map[string][]string),
+		failedPaths:           make(map[string]struct{}),
 	}
 }
 
@@ -147,6 +157,11 @@ func (g *Generator) Generate(ctx context.Context, protoPath string, opts ...Opti
 		return err
 	}
 	g.absPathToRelativePath[path] = protoPath
+	defer func() {
+		if g.watcher != nil {
+			g.watcher.Close()
+		}
+	}()
 	for _, opt := range opts {
 		if err := opt(g); err != nil {
 			return err
@@ -160,7 +175,6 @@ func (g *Generator) Generate(ctx context.Context, protoPath string, opts ...Opti
 		g.buildCacheMap = buildCacheMap
 	}
 	if g.watcher != nil {
-		defer g.watcher.Close()
 		for _, src := range g.cfg.Src {
 			log.Printf("watch %v directory's proto files", src)
 		}
@@ -298,6 +312,10 @@ func (g *Generator) createProtoPathMap() (map[string]struct{}, error) {
 	for _, src := range g.cfg.Src {
 		if err := filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
 			if err != nil {
+				if path != src && errors.Is(err, fs.ErrNotExist) {
+					// removed in the meantime.
+					return nil
+				}
 				return err
 			}
 			if filepath.Ext(path) != ".proto" {
@@ -327,28 +345,21 @@ func (g *Generator) setWatcher(w *Watcher) error {
 			log.Printf("failed to create absolute path from %s: %+v", event.Name, err)
 			return
 		}
-		g.absPathToRelativePath[path] = event.Name
-
-		var results []*ProtoFileResult
-		switch {
-		case event.Has(fsnotify.Create):
-			result, err := g.createProtoFile(ctx, path)
-			if err != nil {
-				log.Printf("failed to generate from created proto %s: %+v", path, err)
-				return
-			}
-			results = append(results, result)
-		case event.Has(fsnotify.Remove), event.Has(fsnotify.Rename):
-			results = append(results, g.deleteProtoFile(path))
-		case event.Has(fsnotify.Write):
-			result, err := g.updateProtoFile(ctx, path)
+		paths := []string{path}
+		if filepath.Ext(path) == ".proto" {
+			g.absPathToRelativePath[path] = event.Name
+		} else {
+			// Since a directory has been changed, all the proto files in it may have been changed.
+			paths, err = g.allProtoPaths()
 			if err != nil {
-				log.Printf("failed to generate from updated proto %s: %+v", path, err)
+				log.Printf("failed to find proto files by the event of %s: %+v", path, err)
 				return
 			}
-			results = append(results, result)
 		}
-		results = append(results, g.otherResults(path)...)
+		results := g.changedResults(ctx, paths)
+		if len(results) == 0 {
+			return
+		}
 		if err := evalAllCodeGenerationPlugin(ctx, results, g.federationGeneratorOption); err != nil {
 			log.Printf("failed to run code generator plugin: %+v", err)
 		}
@@ -367,12 +378,146 @@ func existsPath(path string) bool {
 	return err == nil
 }
 
-func (g *Generator) otherResults(path string) []*ProtoFileResult {
+// allProtoPaths returns all the existing proto files and the removed ones whose generated files still exist.
+func (g *Generator) allProtoPaths() ([]string, error) {
+	protoPathMap, err := g.createProtoPathMap()
+	if err != nil {
+		return nil, err
+	}
+	for path := range g.buildCacheMap {
+		protoPathMap[path] = struct{}{}
+	}
+	ret := make([]string, 0, len(protoPathMap))
+	for path := range protoPathMap {
+		ret = append(ret, path)
+	}
+	return ret, nil
+}
+
+// affectedProtoPaths returns the specified proto files, the ones that depend on them
+// and the ones that could not be generated before.
+func (g *Generator) affectedProtoPaths(paths []string) []string {
+	affected := make(map[string]struct{})
+	var add func(string)
+	add = func(path string) {
+		if _, exists := affected[path]; exists {
+			return
+		}
+		affected[path] = struct{}{}
+		for p, imports := range g.absPathToImports {
+			for _, name := range imports {
+				if strings.HasSuffix(path, string(filepath.Separator)+filepath.FromSlash(name)) {
+					add(p)
+					break
+				}
+			}
+		}
+	}
+	for _, path := range paths {
+		add(path)
+	}
+	for path := range g.failedPaths {
+		add(path)
+	}
+	for path := range g.buildCacheMap {
+		if !existsPath(path) {
+			// Sometimes fsnotify cannot detect a file remove event.
+			add(path)
+		}
+	}
+	ret := make([]string, 0, len(affected))
+	for path := range affected {
+		ret = append(ret, path)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
+// changedResults generates the affected proto files and returns the results of all proto files.
+// The state of the proto files is always taken from the file system,
+// because it may have been changed again since the event occurred.
+func (g *Generator) changedResults(ctx context.Context, paths []string) []*ProtoFileResult {
+	var (
+		deleted []*ProtoFileResult
+		changed []*ProtoFileResult
+	)
+	for _, path := range g.affectedProtoPaths(paths) {
+		buildCache, exists := g.buildCacheMap[path]
+		if !existsPath(path) {
+			delete(g.failedPaths, path)
+			delete(g.absPathToImports, path)
+			if exists {
+				deleted = append(deleted, g.deleteProtoFile(path))
+			}
+			continue
+		}
+		var (
+			result *ProtoFileResult
+			err    error
+		)
+		if exists {
+			result, err = g.updateProtoFile(ctx, path)
+		} else {
+			result, err = g.createProtoFile(ctx, path)
+		}
+		if err != nil {
+			log.Printf("failed to generate from proto %s: %+v", path, err)
+			g.failedPaths[path] = struct{}{}
+			continue
+		}
+		delete(g.failedPaths, path)
+		changed = append(changed, result)
+		if unused := unusedFiles(buildCache, result.Files); len(unused) != 0 {
+			deleted = append(deleted, &ProtoFileResult{
+				ProtoPath: path,
+				Type:      DeleteAction,
+				Files:     unused,
+				Out:       g.cfg.Out,
+			})
+		}
+	}
+	if len(deleted) == 0 && len(changed) == 0 {
+		return nil
+	}
+	changedPaths := make([]string, 0, len(changed))
+	for _, result := range changed {
+		changedPaths = append(changedPaths, result.ProtoPath)
+	}
+	results := append(append(deleted, changed...), g.otherResults(changedPaths...)...)
+	// Since a removed file may also be an output of another proto file, the files must be removed first.
+	sort.SliceStable(results, func(i, j int) bool {
+		return results[i].Type == DeleteAction && results[j].Type != DeleteAction
+	})
+	return results
+}
+
+// unusedFiles returns the files of the previous generation that are not generated anymore.
+func unusedFiles(prev *BuildCache, files []*pluginpb.CodeGeneratorResponse_File) []*pluginpb.CodeGeneratorResponse_File {
+	if prev == nil {
+		return nil
+	}
+	nameMap := make(map[string]struct{})
+	for _, file := range files {
+		nameMap[file.GetName()] = struct{}{}
+	}
+	var ret []*pluginpb.CodeGeneratorResponse_File
+	for _, resp := range prev.Responses {
+		for _, file := range resp.GetFile() {
+			if _, exists := nameMap[file.GetName()]; !exists {
+				ret = append(ret, file)
+			}
+		}
+	}
+	return ret
+}
+
+func (g *Generator) otherResults(paths ...string) []*ProtoFileResult {
 	results := make([]*ProtoFileResult, 0, len(g.buildCacheMap))
-	for p, buildCache := range g.buildCacheMap {
-		if path == p {
+	for _, p := range slices.Sorted(maps.Keys(g.buildCacheMap)) {
+		if slices.Contains(paths, p) {
 			continue
 		}
+		buildCache := g.buildCacheMap[p]
 		if !existsPath(p) {
 			// Sometimes fsnotify cannot detect a file remove event, so it may contain a path that does not exist.
 			// If the path does not exist, create result for delete.
@@ -404,8 +549,6 @@ func (g *Generator) createProtoFile(ctx context.Context, path string) (*ProtoFil
 }
 
 func (g *Generator) updateProtoFile(ctx context.Context, path string) (*ProtoFileResult, error) {
-	delete(g.buildCacheMap, path)
-
 	result, err := g.createGeneratorResult(ctx, path)
 	if err != nil {
 		return nil, err
@@ -440,6 +583,9 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		ProtoPath: path,
 		Out:       g.cfg.Out,
 	}
+	// The cache is replaced only if everything is generated.
+	// Otherwise, the previous one is required to remove the generated files later.
+	buildCache := &BuildCache{}
 	for _, pluginCfg := range g.cfg.Plugins {
 		pluginReq, err := newPluginRequest(path, req, pluginCfg.Opt)
 		if err != nil {
@@ -452,11 +598,6 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		if resp == nil {
 			continue
 		}
-		buildCache := g.buildCacheMap[path]
-		if buildCache == nil {
-			buildCache = &BuildCache{}
-			g.buildCacheMap[path] = buildCache
-		}
 		if pluginCfg.Plugin == "protoc-gen-grpc-federation" {
 			files, err := g.createGRPCFederationFiles(pluginReq)
 			if err != nil {
@@ -468,6 +609,7 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		result.Files = append(result.Files, resp.GetFile()...)
 		buildCache.Responses = append(buildCache.Responses, resp)
 	}
+	g.buildCacheMap[path] = buildCache
 	return result, nil
 }
 
@@ -487,6 +629,7 @@ func (g *Generator) compileProto(ctx context.Context, protoPath string) (*plugin
 	if err != nil {
 		return nil, fmt.Errorf("failed to create source file: %w", err)
 	}
+	g.absPathToImports[protoPath] = append(file.Imports(), file.ImportsByImportRule()...)
 	if outs := g.validator.Validate(ctx, file, validator.ImportPathOption(g.importPaths...)); len(outs) != 0 {
 		out := validator.Format(outs)
 		if validator.ExistsError(outs) {
-- 
2.43.0


From c3ca883fbcda7daa557f2ad46fe2aea1fe4e6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 22/39] fix: process sources and plugins of the configuration
 in a fixed order

---
 generator/config.go    | 5 ++++-
 generator/generator.go | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/config.go b/generator/config.go
index 7c7443d..2a5e70f 100644
--- a/generator/config.go
+++ b/generator/config.go
@@ -3,9 +3,11 @@ package generator
 import (
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/goccy/go-yaml"
@@ -122,7 +124,8 @@ func setupConfig(cfg *Config) error {
 		plugin.installedPath = path
 		pluginNameMap[name] = struct{}{}
 	}
-	for standardPlugin, use := range standardPluginMap {
+	for _, standardPlugin := range slices.Sorted(maps.Keys(standardPluginMap)) {
+		use := standardPluginMap[standardPlugin]
 		if _, exists := pluginNameMap[standardPlugin]; !exists && use {
 			addStandardPlugin(cfg, standardPlugin)
 		}
diff --git a/generator/generator.go b/generator/generator.go
index 0bd5083..33c8b0b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -213,7 +213,8 @@ func (g *Generator) GenerateAll(ctx context.Context) (BuildCacheMap, error) {
 		return nil, err
 	}
 	buildCacheMap := BuildCacheMap{}
-	for protoPath := range protoPathMap {
+	// Since which error is reported depends on the order, it must always be the same.
+	for _, protoPath := range slices.Sorted(maps.Keys(protoPathMap)) {
 		req, err := g.compileProto(ctx, protoPath)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 22c91f19410d53b1c0c4e877d8d7eefda565ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 23/39] fix: report the same compile errors whatever the timing
 of parallel compilation

---
 compiler/compiler.go | 127 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 123 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b19351c..b8a5041 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -7,10 +7,14 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"slices"
+	"strconv"
 	"strings"
 
 	"github.com/bufbuild/protocompile"
+	"github.com/bufbuild/protocompile/ast"
 	"github.com/bufbuild/protocompile/linker"
+	"github.com/bufbuild/protocompile/parser"
 	"github.com/bufbuild/protocompile/protoutil"
 	"github.com/bufbuild/protocompile/reporter"
 	"google.golang.org/protobuf/reflect/protoreflect"
@@ -160,8 +164,6 @@ func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Optio
 		return nil, err
 	}
 
-	var r errorReporter
-
 	compiler := protocompile.Compiler{
 		Resolver: protocompile.WithStandardImports(&protocompile.SourceResolver{
 			ImportPaths: append(c.importPaths, filepath.Dir(relPath), ""),
@@ -189,7 +191,7 @@ func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Optio
 			},
 		}),
 		SourceInfoMode: protocompile.SourceInfoStandard,
-		Reporter:       &r,
+		Reporter:       &errorReporter{},
 	}
 	files := []string{relPath}
 	files = append(files, file.Imports()...)
@@ -198,12 +200,129 @@ func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Optio
 	}
 	linkedFiles, err := compiler.Compile(ctx, files...)
 	if err != nil {
-		return nil, &CompilerError{Err: err, ErrWithPos: r.errs}
+		// Since the files are compiled in parallel, the reported errors depend on the timing.
+		// To always get the same errors, compile the files one by one.
+		return nil, compileError(ctx, &compiler, files, err)
 	}
 	protoFiles := c.getProtoFiles(linkedFiles)
 	return protoFiles, nil
 }
 
+// compileError compiles the files one by one in the order of their dependencies to find all errors in that order.
+// A file is not compiled if there is an error in its dependencies.
+func compileError(ctx context.Context, compiler *protocompile.Compiler, files []string, err error) *CompilerError {
+	var (
+		r        errorReporter
+		firstErr error
+		resolver = compiler.Resolver
+		linked   = make(map[string]linker.File)
+		failed   = make(map[string]struct{})
+	)
+	sequential := &protocompile.Compiler{
+		Resolver: protocompile.ResolverFunc(func(path string) (protocompile.SearchResult, error) {
+			if file, exists := linked[path]; exists {
+				return protocompile.SearchResult{Desc: file}, nil
+			}
+			return resolver.FindFileByPath(path)
+		}),
+		SourceInfoMode: compiler.SourceInfoMode,
+		Reporter:       &r,
+	}
+	var compile func(string, []string) bool
+	compile = func(path string, importedBy []string) bool {
+		if _, exists := linked[path]; exists {
+			return true
+		}
+		if _, exists := failed[path]; exists {
+			return false
+		}
+		// A file is regarded as failed until it has been compiled.
+		failed[path] = struct{}{}
+		importedBy = append(importedBy, path)
+		existsErr := false
+		root, err := parseFile(resolver, path)
+		if err != nil && len(importedBy) > 1 {
+			// The error is reported at the import statement when compiling the file that has it.
+			delete(failed, path)
+			return true
+		}
+		for _, imp := range importNodes(root) {
+			name := imp.Name.AsString()
+			if slices.Contains(importedBy, name) {
+				_ = r.Error(importCycleError(root.NodeInfo(imp.Name), append(importedBy, name)))
+				existsErr = true
+				continue
+			}
+			if !compile(name, importedBy) {
+				existsErr = true
+			}
+		}
+		if existsErr {
+			return false
+		}
+		linkedFiles, err := sequential.Compile(ctx, path)
+		if err != nil {
+			if firstErr == nil {
+				firstErr = err
+			}
+			return false
+		}
+		delete(failed, path)
+		linked[path] = linkedFiles[0]
+		return true
+	}
+	for _, file := range files {
+		compile(file, nil)
+	}
+	if len(r.errs) != 0 {
+		return &CompilerError{Err: reporter.ErrInvalidSource, ErrWithPos: r.errs}
+	}
+	if firstErr != nil {
+		return &CompilerError{Err: firstErr}
+	}
+	return &CompilerError{Err: err}
+}
+
+// parseFile returns error if the file is not found, and returns nil if the file has no source or cannot be parsed.
+func parseFile(resolver protocompile.Resolver, path string) (*ast.FileNode, error) {
+	result, err := resolver.FindFileByPath(path)
+	if err != nil {
+		return nil, err
+	}
+	if result.Source == nil {
+		return nil, nil
+	}
+	if closer, ok := result.Source.(io.Closer); ok {
+		defer closer.Close()
+	}
+	root, err := parser.Parse(path, result.Source, reporter.NewHandler(nil))
+	if err != nil {
+		return nil, nil
+	}
+	return root, nil
+}
+
+func importNodes(root *ast.FileNode) []*ast.ImportNode {
+	if root == nil {
+		return nil
+	}
+	var nodes []*ast.ImportNode
+	for _, decl := range root.Decls {
+		if node, ok := decl.(*ast.ImportNode); ok {
+			nodes = append(nodes, node)
+		}
+	}
+	return nodes
+}
+
+func importCycleError(span ast.SourceSpan, paths []string) reporter.ErrorWithPos {
+	quoted := make([]string, 0, len(paths))
+	for _, path := range paths {
+		quoted = append(quoted, strconv.Quote(path))
+	}
+	return reporter.Errorf(span, "cycle found in imports: %s", strings.Join(quoted, " -> "))
+}
+
 func (c *Compiler) getProtoFiles(linkedFiles []linker.File) []*descriptorpb.FileDescriptorProto {
 	var (
 		protos         []*descriptorpb.FileDescriptorProto
-- 
2.43.0


From 29b3689f70e31a26385e206a792236610bd6a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 24/39] fix: report import cycles and resolve files in the
 order of the request

---
 resolver/cel.go      | 6 +++++-
 resolver/resolver.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/resolver/cel.go b/resolver/cel.go
index 3c1fe7c..03ddc60 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -149,7 +149,11 @@ func (r *CELRegistry) RegisterFiles(fds ...*descriptorpb.FileDescriptorProto) er
 		}
 		fileMap[fileName] = fd
 	}
-	for _, fd := range fileMap {
+	for _, fd := range fds {
+		if _, exists := fileMap[fd.GetName()]; !exists {
+			// already processed as a dependency.
+			continue
+		}
 		if err := r.registerFileDeps(fd, fileMap); err != nil {
 			return err
 		}
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 21ba58f..0bff199 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -163,7 +163,7 @@ func (r *Resolver) Resolve() (*Result, error) {
 	}
 
 	if err := r.celRegistry.RegisterFiles(r.files...); err != nil {
-		return nil, err
+		return nil, &Error{Errs: []error{err}}
 	}
 
 	files := r.resolveFiles(ctx)
-- 
2.43.0


From 0ad9ceed8ec62ee8f1b07f27f35968613ae30551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 25/39] fix: send the whole request to every code generation
 plugin

---
 generator/generator.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 33c8b0b..414df9e 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -859,7 +859,6 @@ func evalAllCodeGenerationPlugin(ctx context.Context, results []*ProtoFileResult
 		if err != nil {
 			return err
 		}
-		genReqReader := bytes.NewBuffer(encodedGenReq)
 		for _, plugin := range opt.Plugins {
 			wasmFile, err := os.ReadFile(plugin.Path)
 			if err != nil {
@@ -874,10 +873,9 @@ func evalAllCodeGenerationPlugin(ctx context.Context, results []*ProtoFileResult
 					gotHash,
 				)
 			}
-			if err := evalCodeGeneratorPlugin(ctx, wasmFile, genReqReader); err != nil {
+			if err := evalCodeGeneratorPlugin(ctx, wasmFile, bytes.NewReader(encodedGenReq)); err != nil {
 				return err
 			}
-			genReqReader.Reset()
 		}
 	}
 	return nil
-- 
2.43.0


From 029d1223f4d5e767719089fc3745b55cbec7a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 26/39] fix: report the HTTP status of a failed plugin download

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 414df9e..38f905b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -1036,6 +1036,10 @@ func downloadFile(url string) (*os.File, error) {
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("grpc-federation: failed to download %s: %s", url, resp.Status)
+	}
+
 	f, err := os.CreateTemp("", "grpc-federation-code-generation-plugin")
 	if err != nil {
 		return nil, fmt.Errorf("grpc-federation: failed to create temp file: %w", err)
-- 
2.43.0


From 37bd9026671c024aa0004f59f0fc6fe4f7b2fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 27/39] fix: determine import aliases by import path

---
 generator/code_generator.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index eb04e6d..7648e98 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -39,14 +39,14 @@ func (g *CodeGenerator) Generate(file *resolver.File) ([]byte, error) {
 type File struct {
 	*resolver.File
 	pkgMap   map[*resolver.GoPackage]struct{}
-	aliasMap map[*resolver.GoPackage]string
+	aliasMap map[string]string // import path to alias
 }
 
 func NewFile(file *resolver.File) *File {
 	return &File{
 		File:     file,
 		pkgMap:   make(map[*resolver.GoPackage]struct{}),
-		aliasMap: make(map[*resolver.GoPackage]string),
+		aliasMap: make(map[string]string),
 	}
 }
 
@@ -621,14 +621,14 @@ func (f *File) Imports() []*Import {
 				suffixIndex++
 			}
 		}
-		f.aliasMap[pkg] = alias
+		f.aliasMap[pkg.ImportPath] = alias
 		imports = append(imports, &Import{
 			Path:  pkg.ImportPath,
 			Alias: alias,
 			Used:  true,
 		})
 		importPathMap[pkg.ImportPath] = struct{}{}
-		importAliasMap[pkg.Name] = struct{}{}
+		importAliasMap[alias] = struct{}{}
 	}
 	sortedPkgs := make([]*resolver.GoPackage, 0, len(f.pkgMap))
 	for pkg := range f.pkgMap {
@@ -647,7 +647,7 @@ func (f *File) Imports() []*Import {
 }
 
 func (f *File) getAlias(pkg *resolver.GoPackage) string {
-	alias, exists := f.aliasMap[pkg]
+	alias, exists := f.aliasMap[pkg.ImportPath]
 	if exists {
 		return alias
 	}
-- 
2.43.0


From db71e10b5d173b361cab4f4a41aa262c232f1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 28/39] fix: do not resolve messages in the order of hash maps

---
 resolver/graph.go    | 5 ++++-
 resolver/resolver.go | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 31e3489..42e57a4 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -35,7 +35,10 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		return nil
 	}
 	sort.Slice(roots, func(i, j int) bool {
-		return roots[i].Message.Name < roots[j].Message.Name
+		if roots[i].Message.Name != roots[j].Message.Name {
+			return roots[i].Message.Name < roots[j].Message.Name
+		}
+		return roots[i].Message.FQDN() < roots[j].Message.FQDN()
 	})
 	graph := &AllMessageDependencyGraph{Roots: roots}
 	if err := validateAllMessageGraph(graph); err != nil {
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 0bff199..bc04f08 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3637,7 +3637,10 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 			msgs = append(msgs, msg)
 		}
 		sort.Slice(msgs, func(i, j int) bool {
-			return msgs[i].Name < msgs[j].Name
+			if msgs[i].Name != msgs[j].Name {
+				return msgs[i].Name < msgs[j].Name
+			}
+			return msgs[i].FQDN() < msgs[j].FQDN()
 		})
 		args := make([]*Message, 0, len(msgs))
 		for _, msg := range msgs {
@@ -5155,7 +5158,9 @@ func (r *Resolver) resolveValue(def *commonValueDef) (*Value, error) {
 }
 
 func (r *Resolver) lookupRequestMessageFromResponseMessage(resMsg *Message) *Message {
-	for _, method := range r.cachedMethodMap {
+	// Since multiple methods may have the same response message, the result must not depend on the order of map.
+	for _, name := range slices.Sorted(maps.Keys(r.cachedMethodMap)) {
+		method := r.cachedMethodMap[name]
 		if method.FederationResponse() == resMsg {
 			return method.Request
 		}
-- 
2.43.0


From b0a6bde935fb7a82b17c094685fb98eeceb8cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:34 +0000
Subject: [PATCH 29/39] fix: report errors of arguments, attributes and
 variables in a fixed order

---
 resolver/resolver.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index bc04f08..dbbc21c 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1873,7 +1873,9 @@ func (r *Resolver) resolveEnumRules(ctx *context, enums []*Enum) {
 			valueBuilder := builder.WithValue(value.Value)
 			value.Rule = r.resolveEnumValueRule(ctx, enum, value, r.enumValueToRuleMap[value], valueBuilder.WithOption())
 		}
-		for attrName, enumValues := range enum.AttributeMap() {
+		attrMap := enum.AttributeMap()
+		for _, attrName := range slices.Sorted(maps.Keys(attrMap)) {
+			enumValues := attrMap[attrName]
 			if len(enumValues) != len(enum.Values) {
 				value := enumValues[0]
 				for idx, attr := range value.Rule.Attrs {
@@ -3831,7 +3833,7 @@ func (r *Resolver) validateMessageDependencyArgumentName(ctx *context, argNameMa
 				}
 			}
 		}
-		for name := range argNameMap {
+		for _, name := range slices.Sorted(maps.Keys(argNameMap)) {
 			if _, exists := curDepArgNameMap[name]; exists {
 				continue
 			}
@@ -4560,7 +4562,7 @@ func (r *Resolver) buildEnvMessage(ctx *context, msg *Message, svcMsgSet map[*Se
 	var envVars []*EnvVar
 	var mismatchEnvVarNames []string
 	mismatchServiceNames := map[string][]string{}
-	for envVarName := range envVarNameSet {
+	for _, envVarName := range slices.Sorted(maps.Keys(envVarNameSet)) {
 		omit := false
 		type svcEnvVar struct {
 			svc    *Service
@@ -4656,7 +4658,7 @@ func (r *Resolver) buildServiceVariablesMessage(ctx *context, msg *Message, svcM
 	var svcVars []*ServiceVariable
 	var mismatchSvcVarNames []string
 	mismatchServiceNames := map[string][]string{}
-	for svcVarName := range svcVarNameSet {
+	for _, svcVarName := range slices.Sorted(maps.Keys(svcVarNameSet)) {
 		omit := false
 		type SvcVarSet struct {
 			svc    *Service
-- 
2.43.0


From f8c828a6e92697344c83ccc62b34350eeb109bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 30/39] fix: make up for file-system errors in watch mode

Errors that are not about missing files no longer make watch mode drop the
outputs of a proto file. Directories that could not be watched, proto files
that could not be found and outputs that could not be removed are taken care
of with the next event.
---
 generator/generator.go | 27 ++++++++++++++++++++++-----
 generator/watcher.go   | 30 +++++++++++++++++++++++++-----
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 38f905b..f086bef 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -340,33 +340,50 @@ func (g *Generator) setWatcher(w *Watcher) error {
 	if err := w.SetWatchPath(g.cfg.Src...); err != nil {
 		return err
 	}
+	var (
+		rescan    bool
+		undeleted []*ProtoFileResult // results whose files may have not been removed
+	)
 	w.SetHandler(func(ctx context.Context, event fsnotify.Event) {
 		path, err := filepath.Abs(event.Name)
 		if err != nil {
 			log.Printf("failed to create absolute path from %s: %+v", event.Name, err)
 			return
 		}
-		paths := []string{path}
+		var paths []string
 		if filepath.Ext(path) == ".proto" {
+			paths = append(paths, path)
 			g.absPathToRelativePath[path] = event.Name
 		} else {
 			// Since a directory has been changed, all the proto files in it may have been changed.
-			paths, err = g.allProtoPaths()
+			rescan = true
+		}
+		if rescan {
+			allPaths, err := g.allProtoPaths()
 			if err != nil {
+				// The next event needs to take care of these proto files too.
 				log.Printf("failed to find proto files by the event of %s: %+v", path, err)
-				return
+			} else {
+				rescan = false
+				paths = append(paths, allPaths...)
 			}
 		}
-		results := g.changedResults(ctx, paths)
+		results := append(undeleted, g.changedResults(ctx, paths)...)
 		if len(results) == 0 {
 			return
 		}
+		undeleted = nil
 		if err := evalAllCodeGenerationPlugin(ctx, results, g.federationGeneratorOption); err != nil {
 			log.Printf("failed to run code generator plugin: %+v", err)
 		}
 		if g.postProcessHandler != nil {
 			if err := g.postProcessHandler(ctx, path, results); err != nil {
 				log.Printf("%+v", err)
+				for _, result := range results {
+					if result.Type == DeleteAction {
+						undeleted = append(undeleted, result)
+					}
+				}
 			}
 		}
 	})
@@ -376,7 +393,7 @@ func (g *Generator) setWatcher(w *Watcher) error {
 
 func existsPath(path string) bool {
 	_, err := os.Stat(path)
-	return err == nil
+	return !errors.Is(err, fs.ErrNotExist)
 }
 
 // allProtoPaths returns all the existing proto files and the removed ones whose generated files still exist.
diff --git a/generator/watcher.go b/generator/watcher.go
index bb3d159..1067f09 100644
--- a/generator/watcher.go
+++ b/generator/watcher.go
@@ -22,6 +22,7 @@ type Watcher struct {
 	watcher     *fsnotify.Watcher
 	paths       []string
 	dirs        map[string]struct{}
+	incomplete  bool // whether some directories could not be watched
 }
 
 func NewWatcher() (*Watcher, error) {
@@ -54,6 +55,9 @@ func (w *Watcher) setWatchPathRecursive(path ...string) error {
 	pathMap := make(map[string]struct{})
 	for _, p := range path {
 		if err := filepath.Walk(p, func(path string, info os.FileInfo, err error) error {
+			if err != nil && !errors.Is(err, fs.ErrNotExist) {
+				w.incomplete = true
+			}
 			if info == nil {
 				return nil
 			}
@@ -112,9 +116,14 @@ func (w *Watcher) sendEventLoop(ctx context.Context) error {
 			if !ok {
 				return nil
 			}
+			incomplete := w.incomplete
 			if w.handleEvent(event) {
 				queue = appendEvent(queue, event)
 			}
+			if incomplete {
+				// Since some directories could not be watched, everything in them may have been changed.
+				queue = w.appendAllEvents(queue)
+			}
 		case err, ok := <-w.watcher.Errors:
 			if !ok {
 				return nil
@@ -122,10 +131,7 @@ func (w *Watcher) sendEventLoop(ctx context.Context) error {
 			log.Println("error:", err)
 			if errors.Is(err, fsnotify.ErrEventOverflow) {
 				// Since there are lost events, everything may have been changed.
-				w.updateWatchPath()
-				for _, path := range w.paths {
-					queue = appendEvent(queue, fsnotify.Event{Name: path, Op: fsnotify.Write})
-				}
+				queue = w.appendAllEvents(queue)
 			}
 		case eventCh <- first:
 			queue = queue[1:]
@@ -133,6 +139,14 @@ func (w *Watcher) sendEventLoop(ctx context.Context) error {
 	}
 }
 
+func (w *Watcher) appendAllEvents(queue []fsnotify.Event) []fsnotify.Event {
+	w.updateWatchPath()
+	for _, path := range w.paths {
+		queue = appendEvent(queue, fsnotify.Event{Name: path, Op: fsnotify.Write})
+	}
+	return queue
+}
+
 // appendEvent appends the event unless the last queued event for the same path is the same.
 func appendEvent(queue []fsnotify.Event, event fsnotify.Event) []fsnotify.Event {
 	for i := len(queue) - 1; i >= 0; i-- {
@@ -170,14 +184,20 @@ func (w *Watcher) isDirectory(event fsnotify.Event) bool {
 	}
 	if event.Has(fsnotify.Create) {
 		info, err := os.Stat(path)
-		return err == nil && info.IsDir()
+		if err != nil {
+			// What cannot be examined may be a directory.
+			return !errors.Is(err, fs.ErrNotExist)
+		}
+		return info.IsDir()
 	}
 	return false
 }
 
 func (w *Watcher) updateWatchPath() {
+	w.incomplete = false
 	if err := w.setWatchPathRecursive(w.paths...); err != nil {
 		log.Println("error:", err)
+		w.incomplete = true
 	}
 }
 
-- 
2.43.0


From 868a54836e5f185c1860e8a5f0d614129a45402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:50 +0000
Subject: [PATCH 31/39] fix: evaluate expressions that compare a message to
 null and use a macro

An expression such as 'res != null && list.exists(v, v == res.id)' is rewritten to compare messages to null, and was
unparsed to be compiled again. What a macro expands to cannot be unparsed, so the evaluation of every such expression
failed.
---
 grpc/federation/cel.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 06348cc..1414e48 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -12,12 +12,10 @@ import (
 	"sync"
 
 	"github.com/google/cel-go/cel"
-	celast "github.com/google/cel-go/common/ast"
 	"github.com/google/cel-go/common/operators"
 	celtypes "github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
 	celext "github.com/google/cel-go/ext"
-	"github.com/google/cel-go/parser"
 	"golang.org/x/sync/singleflight"
 	exprpb "google.golang.org/genproto/googleapis/api/expr/v1alpha1"
 	"google.golang.org/genproto/googleapis/rpc/code"
@@ -820,15 +818,11 @@ func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
 		return nil, err
 	}
 	if newComparingNullResolver().Resolve(checkedExpr) {
-		ca, err := celast.ToAST(checkedExpr)
-		if err != nil {
-			return nil, err
-		}
-		expr, err = parser.Unparse(ca.Expr(), ca.SourceInfo())
-		if err != nil {
-			return nil, err
-		}
-		ast, iss = env.Compile(expr)
+		// The source of an expanded macro cannot be restored, so the expression is checked again without it.
+		ast, iss = env.Check(cel.ParsedExprToAst(&exprpb.ParsedExpr{
+			Expr:       checkedExpr.GetExpr(),
+			SourceInfo: checkedExpr.GetSourceInfo(),
+		}))
 		if iss.Err() != nil {
 			return nil, iss.Err()
 		}
-- 
2.43.0


From 0196d18fe5f77c69e2e14ce8a456acf3b3163893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:46 +0000
Subject: [PATCH 32/39] fix: keep $ in string literals of expressions

$ stands for the message argument, but was replaced in string literals too: 'matches('^a$')' never matched and
''$5'' evaluated to '__ARG__5'.
---
 grpc/federation/cel.go | 46 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 1414e48..1c0898f 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -807,8 +807,7 @@ func createCELProgram(ctx context.Context, req *EvalCELRequest) (cel.Program, er
 }
 
 func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
-	expr := strings.Replace(req.Expr, "$", MessageArgumentVariableName, -1)
-	ast, iss := env.Compile(expr)
+	ast, iss := env.Compile(replaceMessageArgument(req.Expr))
 	if iss.Err() != nil {
 		return nil, iss.Err()
 	}
@@ -830,6 +829,49 @@ func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
 	return ast, nil
 }
 
+// replaceMessageArgument replaces $ with the name of the message argument.
+// $ in string literals and comments doesn't refer to the message argument.
+func replaceMessageArgument(expr string) string {
+	var b strings.Builder
+	for i := 0; i < len(expr); {
+		size := 1
+		switch c := expr[i]; {
+		case c == '$':
+			b.WriteString(MessageArgumentVariableName)
+			i++
+			continue
+		case c == '\'' || c == '"':
+			isRaw := i > 0 && strings.ContainsRune("rR", rune(expr[i-1])) ||
+				i > 1 && strings.ContainsRune("bB", rune(expr[i-1])) && strings.ContainsRune("rR", rune(expr[i-2]))
+			size = stringLiteralSize(expr[i:], isRaw)
+		case strings.HasPrefix(expr[i:], "//"):
+			if size = strings.IndexByte(expr[i:], '\n'); size < 0 {
+				size = len(expr) - i
+			}
+		}
+		b.WriteString(expr[i : i+size])
+		i += size
+	}
+	return b.String()
+}
+
+// stringLiteralSize returns the size of the string literal expr begins with.
+func stringLiteralSize(expr string, isRaw bool) int {
+	quote := expr[:1]
+	if triple := strings.Repeat(quote, 3); strings.HasPrefix(expr, triple) {
+		quote = triple
+	}
+	for i := len(quote); i < len(expr); i++ {
+		switch {
+		case expr[i] == '\\' && !isRaw:
+			i++
+		case strings.HasPrefix(expr[i:], quote):
+			return i + len(quote)
+		}
+	}
+	return len(expr)
+}
+
 func getCELProgramCache(ctx context.Context, cacheIndex int) cel.Program {
 	cache := getCELCacheMap(ctx).get(cacheIndex)
 	if cache == nil {
-- 
2.43.0


From 7afaf1302b5f52c7caa7fee7483177a05c95e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:16 +0000
Subject: [PATCH 33/39] fix: report the errors returned by protoc plugins

A plugin reports an error in its input by the error field of its response.
It was ignored, and generation succeeded without the files of the plugin.
---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index f086bef..89833a9 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -305,6 +305,10 @@ func (g *Generator) generateByPlugin(ctx context.Context, req *PluginRequest, cf
 	if err := proto.Unmarshal(stdout.Bytes(), &res); err != nil {
 		return nil, err
 	}
+	// A plugin exits with zero status code even if it reports an error in the input files.
+	if res.GetError() != "" {
+		return nil, fmt.Errorf("grpc-federation: %s: %s", cfg.Plugin, res.GetError())
+	}
 	return &res, nil
 }
 
-- 
2.43.0


From b89e105fb663fd626640b8c369fa32e875d29166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:28 +0000
Subject: [PATCH 34/39] fix: pass the action type and the files of a result to
 code generation plugins

The fields existed in the request but were never set, and the path of the
proto file and the output directory were lost by decoding.
---
 grpc/federation/generator/decode.go |  2 ++
 grpc/federation/generator/encode.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index f996591..f52a507 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -72,6 +72,8 @@ func (d *decoder) toCodeGeneratorRequest(req *plugin.CodeGeneratorRequest) (*Cod
 		return nil, err
 	}
 	return &CodeGeneratorRequest{
+		ProtoPath:           req.GetProtoPath(),
+		OutDir:              req.GetOutDir(),
 		Files:               req.GetFiles(),
 		GRPCFederationFiles: grpcFederationFiles,
 	}, nil
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index 5f73210..892e7fa 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -58,8 +58,10 @@ func CreateCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugin.CodeGen
 
 func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugin.CodeGeneratorRequest {
 	ret := &plugin.CodeGeneratorRequest{
+		Type:      e.toActionType(cfg.Type),
 		ProtoPath: cfg.ProtoPath,
 		OutDir:    cfg.OutDir,
+		Files:     cfg.Files,
 		Reference: e.ref,
 	}
 	for _, file := range e.toFiles(cfg.GRPCFederationFiles) {
@@ -68,6 +70,20 @@ func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugi
 	return ret
 }
 
+func (e *encoder) toActionType(typ ActionType) plugin.ActionType {
+	switch typ {
+	case KeepAction:
+		return plugin.ActionType_KEEP_ACTION
+	case CreateAction:
+		return plugin.ActionType_CREATE_ACTION
+	case DeleteAction:
+		return plugin.ActionType_DELETE_ACTION
+	case UpdateAction:
+		return plugin.ActionType_UPDATE_ACTION
+	}
+	return plugin.ActionType_GENERATE_ACTION
+}
+
 func (e *encoder) toFile(file *resolver.File) *plugin.File {
 	if file == nil {
 		return nil
-- 
2.43.0


From 6f1c905d27e7357fae2be40f41768fa6f420f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:06 +0000
Subject: [PATCH 35/39] fix: stop code generation plugins when watch mode is
 cancelled

A running WebAssembly plugin ignored its context, so watch mode did not return until the plugin ended by itself.
---
 generator/wasm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/wasm.go b/generator/wasm.go
index ea52497..4542fea 100644
--- a/generator/wasm.go
+++ b/generator/wasm.go
@@ -12,7 +12,7 @@ import (
 )
 
 func evalCodeGeneratorPlugin(ctx context.Context, pluginFile []byte, req io.Reader) error {
-	runtimeCfg := wazero.NewRuntimeConfig()
+	runtimeCfg := wazero.NewRuntimeConfig().WithCloseOnContextDone(true)
 	if cache := getCompilationCache(); cache != nil {
 		runtimeCfg = runtimeCfg.WithCompilationCache(cache)
 	}
-- 
2.43.0


From 00e6dc4e68bb2ea22ea284413f0197653c6f4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 36/39] fix: generate code that compiles for enum definitions
 without conversion

---
 generator/code_generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 7648e98..f3cf8d1 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3192,10 +3192,10 @@ func (d *VariableDefinition) Type() string {
 func (d *VariableDefinition) EnumCastFunc() string {
 	typ := d.Enum().By.Out
 	if typ == nil {
-		return "v"
+		return "v, nil"
 	}
 	if typ.Enum == d.VariableDefinition.Expr.Type.Enum {
-		return "v"
+		return "v, nil"
 	}
 	return fmt.Sprintf("s.%s(v)",
 		castFuncName(
@@ -3273,12 +3273,12 @@ func (r *MapResolver) EnumCastFunc() (string, error) {
 	}
 	typ := enumExpr.By.Out
 	if typ == nil {
-		return "v", nil
+		return "v, nil", nil
 	}
 	outType := r.MapExpr.Expr.Type.Clone()
 	outType.Repeated = false
 	if typ.Enum == outType.Enum {
-		return "v", nil
+		return "v, nil", nil
 	}
 	return fmt.Sprintf("s.%s(v)",
 		castFuncName(
-- 
2.43.0


From a9702a361ce00152919b3d08f82f5d85afbc8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:37 +0000
Subject: [PATCH 37/39] fix: convert oneof cases that are not messages in
 message aliases

---
 generator/code_generator.go      | 40 +++++++++++++++++++++-----------
 generator/templates/cast.go.tmpl |  8 +++++++
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index f3cf8d1..38d5f5e 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2070,7 +2070,10 @@ func (f *CastField) CastOneofWrapper() *CastOneofWrapper {
 	if f.toType.OneofField == nil {
 		return nil
 	}
-	field := f.toType.OneofField
+	return f.oneofWrapper(f.toType.OneofField)
+}
+
+func (f *CastField) oneofWrapper(field *resolver.OneofField) *CastOneofWrapper {
 	fieldName := util.ToPublicGoVariable(field.Name)
 	typeName := strings.TrimPrefix(f.file.messageTypeToText(field.Message), "*") + "_" + fieldName
 	if field.IsConflict() {
@@ -2227,6 +2230,11 @@ type CastStructField struct {
 	FromFieldName string
 	CastName      string
 	RequiredCast  bool
+	// FromOneofName and FromOneofWrapper tell whether the source is set, if the value itself (not a message) doesn't.
+	FromOneofName    string
+	FromOneofWrapper *CastOneofWrapper
+	// ToOneofWrapper wraps the value if the destination belongs to oneof.
+	ToOneofWrapper *CastOneofWrapper
 }
 
 func (f *CastField) ToStruct() *CastStruct {
@@ -2287,31 +2295,33 @@ func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Mes
 			if fromMsg != alias.Message {
 				continue
 			}
-			fromField := alias
-			fromType := fromField.Type
-			toType := toField.Type
-			requiredCast := requiredCast(fromType, toType)
-			return &CastStructField{
-				ToFieldName:   util.ToPublicGoVariable(toField.Name),
-				FromFieldName: util.ToPublicGoVariable(fromField.Name),
-				RequiredCast:  requiredCast,
-				CastName:      castFuncName(fromType, toType),
-			}
+			return f.castStructField(alias, toField)
 		}
 	}
 	fromField := fromMsg.Field(toField.Name)
 	if fromField == nil {
 		return nil
 	}
+	return f.castStructField(fromField, toField)
+}
+
+func (f *CastField) castStructField(fromField, toField *resolver.Field) *CastStructField {
 	fromType := fromField.Type
 	toType := toField.Type
-	requiredCast := requiredCast(fromType, toType)
-	return &CastStructField{
+	ret := &CastStructField{
 		ToFieldName:   util.ToPublicGoVariable(toField.Name),
 		FromFieldName: util.ToPublicGoVariable(fromField.Name),
-		RequiredCast:  requiredCast,
+		RequiredCast:  requiredCast(fromType, toType),
 		CastName:      castFuncName(fromType, toType),
 	}
+	if oneofField := fromType.OneofField; oneofField != nil && fromType.Kind != types.Message {
+		ret.FromOneofName = util.ToPublicGoVariable(oneofField.Oneof.Name)
+		ret.FromOneofWrapper = f.oneofWrapper(oneofField)
+	}
+	if toType.OneofField != nil {
+		ret.ToOneofWrapper = f.oneofWrapper(toType.OneofField)
+	}
+	return ret
 }
 
 type CastOneof struct {
@@ -2319,6 +2329,7 @@ type CastOneof struct {
 	FieldName    string
 	CastName     string
 	RequiredCast bool
+	Nillable     bool
 }
 
 func (f *CastField) ToOneof() *CastOneof {
@@ -2347,6 +2358,7 @@ func (f *CastField) ToOneof() *CastOneof {
 		FieldName:    util.ToPublicGoVariable(toField.Name),
 		RequiredCast: requiredCast,
 		CastName:     castFuncName(fromType, toType),
+		Nillable:     fromType.Kind == types.Message,
 	}
 }
 
diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index deb92ea..a80aa3a 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -49,12 +49,18 @@ switch {
 	{{ $name := .Name }}
 	{{- $localName := toLocalVariable $name }}
 	{{- range .Fields }}
+	{{- if .FromOneofWrapper }}
+	case func() bool { _, ok := from.Get{{ .FromOneofName }}().(*{{ .FromOneofWrapper.Name }}); return ok }():
+	{{- else }}
 	case from.Get{{ .FromFieldName }}() != nil:
+	{{- end }}
 	{{- if .RequiredCast }}
 	{{ $localName }}, err := s.{{ .CastName }}(from.Get{{ .FromFieldName }}())
 	if err != nil {
 		return nil, err
 	}
+	{{- else if .ToOneofWrapper }}
+	{{ $localName }} := &{{ .ToOneofWrapper.Name }}{ {{ .ToOneofWrapper.FieldName }}: from.Get{{ .FromFieldName }}() }
 	{{- else }}
 	{{ $localName }} := from.Get{{ .FromFieldName }}()
 	{{- end }}
@@ -95,9 +101,11 @@ return ret, nil
 {{- end }}
 
 {{- define "castOneof" }}
+{{- if .Nillable }}
 if from == nil {
 	return nil, nil
 }
+{{- end }}
 {{ $fieldName := toLocalVariable .FieldName }}
 {{- if .RequiredCast }}
 {{ $fieldName }}, err := s.{{ .CastName }}(from)
-- 
2.43.0


From e41ab7fd3839dd07b3309c6e6eaed3105e653125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:37 +0000
Subject: [PATCH 38/39] fix: convert values of renamed fields and of oneof
 cases bound to plain fields

---
 generator/code_generator.go |  4 ++++
 resolver/type_conversion.go | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 38d5f5e..26af041 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3751,6 +3751,10 @@ func requiredCast(from, to *resolver.Type) bool {
 }
 
 func castFuncName(from, to *resolver.Type) string {
+	if from.OneofField != nil && to.OneofField == nil {
+		from = from.Clone()
+		from.OneofField = nil
+	}
 	return fmt.Sprintf("cast_%s__to__%s", castName(from), castName(to))
 }
 
diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 007adc5..8520747 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -17,6 +17,11 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	if fromType.IsNull || toType.IsNull {
 		return nil
 	}
+	if fromType.OneofField != nil && toType.OneofField == nil {
+		// the value of the oneof case is used as it is.
+		fromType = fromType.Clone()
+		fromType.OneofField = nil
+	}
 	if !requiredTypeConversion(fromType, toType) {
 		return nil
 	}
@@ -70,7 +75,7 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 		}
 		decls = append(decls, &TypeConversionDecl{From: fromType, To: toType})
 		for _, field := range toType.Message.Fields {
-			fromField := fromType.Message.Field(field.Name)
+			fromField := sourceField(fromType.Message, field)
 			if fromField == nil {
 				continue
 			}
@@ -82,6 +87,18 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	return decls
 }
 
+// sourceField returns the field of the message from which the value of the specified field is taken.
+func sourceField(from *Message, to *Field) *Field {
+	if to.HasRule() {
+		for _, alias := range to.Rule.Aliases {
+			if alias.Message == from {
+				return alias
+			}
+		}
+	}
+	return from.Field(to.Name)
+}
+
 func enumSelectorTypeConversionDecls(msg *Message, toType *Type, convertedFQDNMap map[string]struct{}) []*TypeConversionDecl {
 	var decls []*TypeConversionDecl
 	if msg.IsEnumSelector() {
-- 
2.43.0


From 705f26893c23f5a1cb45de75776919e23d4c79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 39/39] fix: keep the log attributes of enclosing scopes on
 failures after a custom resolver

A new logger reference without attributes forgot the attributes of the
enclosing scopes (only its logger carried them), so that a failure
reported after a field custom resolver was logged without them.
---
 grpc/federation/log/context.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/log/context.go b/grpc/federation/log/context.go
index b216812..ac0499e 100644
--- a/grpc/federation/log/context.go
+++ b/grpc/federation/log/context.go
@@ -15,10 +15,19 @@ type loggerRef struct {
 	mu     sync.RWMutex
 	logger *slog.Logger
 	attrs  []slog.Attr
+
+	// inherited are the attributes of the enclosing scopes which the logger already carries.
+	inherited []slog.Attr
 }
 
 func WithLogger(ctx context.Context, logger *slog.Logger, attrs ...slog.Attr) context.Context {
-	return context.WithValue(ctx, loggerKey{}, &loggerRef{logger: logger, attrs: attrs})
+	ref := &loggerRef{logger: logger, attrs: attrs}
+	if len(attrs) == 0 {
+		// A new reference without own attributes still belongs to the enclosing scopes.
+		// Otherwise, the failures logged with Attrs would lose the attributes of these scopes.
+		ref.inherited = Attrs(ctx)
+	}
+	return context.WithValue(ctx, loggerKey{}, ref)
 }
 
 func Logger(ctx context.Context) *slog.Logger {
@@ -44,7 +53,10 @@ func Attrs(ctx context.Context) []slog.Attr {
 	defer ref.mu.RUnlock()
 	// The attributes are inherited by several scopes.
 	// Without clipping, the scopes would append their own attributes to the same backing array.
-	return slices.Clip(ref.attrs)
+	if len(ref.inherited) == 0 {
+		return slices.Clip(ref.attrs)
+	}
+	return slices.Concat(ref.inherited, ref.attrs)
 }
 
 // SetLogger set logger instance for current context.
-- 
2.43.0

