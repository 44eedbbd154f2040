package main

import "strings"

// knownOrdinary: the builtins that are handed values.
var knownOrdinary = setOf(strings.Fields(`
! != % * + - / < <= == > >= abandon abs acons acos acosh add-debug-on-entry alist alist? any append
append-bytes append-bytes! apply asin asinh assoc assq assv atan atanh atom? atomic atomic-add!
atomic-compare-and-swap! atomic-load atomic-store! atomic-swap! binary-and binary-not binary-or bits->float
boolean? bytearray->list bytearray-to-list bytearray? caaaar caaadr caaar caadar caaddr caadr caar cadaar
cadadr cadar caddar cadddr caddr cadr car cbrt cdaaar cdaadr cdaar cdadar cdaddr cdadr cdar cddaar cddadr
cddar cdddar cddddr cdddr cddr cdr ceiling channel-read channel-try-read channel-try-write channel-write clone
close-channel close-port complement cons cons* copy cos cosh debug debug-on-entry debug-on-error debug-trace
dissoc drop dump eighth environment-assign! environment-assignable? environment-assigned? environment-bindings
environment-bound-names environment-bound? environment-definable? environment-define environment-has-parent?
environment-lookup environment-lookup-macro environment-macro-names environment-parent
environment-reference-type environment? eof-object? eq? equal? eqv? erf erfc error eval even? every exec exp
exp2 expm1 extract-byte extract-bytes fifth filter find find-tail find-top-level-environment first flatten
flatten* float float->bits float? floor fold-left fold-right for-each fork format fourth frame-keys
frame-values frame? function? gamma general-car-cdr gensym gensym-naked get-slot get-slot-or-nil global-eval
has-slot? head inf? integer integer? intern intersection interval j0 j1 join json->lisp last-pair left-shift
length lisp->json lisp-trace list list->bytearray list-directory list-head list-ref list-tail
list-to-bytearray list? load log log10 log1p log2 logb macro? make-channel make-frame make-list
make-top-level-environment map max member memp memq memv millis min modulo nan? negative? neq? newline nil?
ninth not notnil? notnull? nth null? number->string number? odd? open-input-file open-output-file pair?
pairlis panic! parse partition port? positive? pow pred proc-sleep procedure-environment quit quotient
random-byte rassoc read reduce reduce-left reduce-right remove remove-debug-on-entry remove-slot! replace-byte
replace-byte! reset-timeout rest restrict-environment reverse right-shift schedule second send send-super
set-slot! seventh sign sin sinh sixth sleep sort sqrt str string->number string-capitalize string-capitalize!
string-ci<=? string-ci<? string-ci=? string-ci>=? string-ci>? string-downcase string-downcase! string-join
string-length string-null? string-prefix? string-split string-suffix? string-trim string-trim-left
string-trim-right string-upcase string-upcase! string<=? string<? string=? string>=? string>? string? sublist
substring substring? succ symbol? system-global-environment tail take tan tanh tenth the-environment third
union wake write write-bytes write-line write-log write-string y0 y1 zero?
`)...)
