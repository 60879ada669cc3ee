(set-property 1 'a 'x)
(remove-property 'a 'other)
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'missing)) (property 'a 'x))))
