(let ((n 0))
  (format t "~a ~a~%" (prog1 (progn (setq n (+ n 1)) nil) (setq n (+ n 10))) n))
