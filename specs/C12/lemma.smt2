; multiples of 3600: what `step` assumes about remainders
(declare-const t Int)
(declare-const a Int)
(declare-const b Int)
(assert (and (>= t 0) (>= a 0) (>= b 0)))
(define-fun whole ((x Int)) Bool (= (mod x 3600) 0))
(define-fun r () Int (mod t 3600))
(assert (not (and
  (=> (and (whole a) (whole b) (< a b)) (and (>= (- b a) 3600) (whole (+ a 3600))))
  (< r 3600) (<= r t) (whole (- t r))
  (=> (and (whole b) (<= b t)) (<= b (- t r))))))
(check-sat)
