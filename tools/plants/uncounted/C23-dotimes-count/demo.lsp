(let ((n 3) (c 0))
  (dotimes (i n) (if (= i 1) (setq n 5)) (setq c (+ c 1)))
  (format t "~a~%" c))
