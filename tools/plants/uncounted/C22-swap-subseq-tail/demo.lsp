(let ((s "abcdef"))
  (setf (subseq s 1 3) "XY") (format t "~a~%" s)
  (setf (subseq s 1 3) "ééé") (format t "~a~%" s))
