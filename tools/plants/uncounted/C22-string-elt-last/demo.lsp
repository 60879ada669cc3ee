(let ((s (string-append "abcdefghijkl" "mnop")))
  (setf (elt s 2) #\X)
  (format t "~a~%" s))
