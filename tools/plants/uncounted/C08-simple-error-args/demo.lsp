(catch 'e
  (with-handler
    (lambda (c) (format t "~s ~s~%" (simple-error-format-string c) (simple-error-format-arguments c)) (throw 'e 1))
    (error "a ~a b ~a" 1 2)))
