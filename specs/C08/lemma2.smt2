; t mod I = r, 1 <= t: (t - 1) mod I = (r = 0 ? I - 1 : r - 1), and the same for (t + I - 1) mod I
(declare-const t Int)
(declare-const I Int)
(declare-const q Int)
(declare-const r Int)
(assert (> I 0))
(assert (>= t 1))
(assert (= t (+ (* q I) r)))
(assert (and (<= 0 r) (< r I)))
; quotients and remainders that are a division of t - 1 and of t + I - 1
(define-fun r1 () Int (ite (= r 0) (- I 1) (- r 1)))
(define-fun q1 () Int (ite (= r 0) (- q 1) q))
(assert (not (and (= (- t 1) (+ (* q1 I) r1)) (<= 0 r1) (< r1 I)
                  (= (+ t (- I 1)) (+ (* (+ q1 1) I) r1)))))
(check-sat)
