(set-property nil 'sym 'name)
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'missing)) (property 'sym 'name))))
