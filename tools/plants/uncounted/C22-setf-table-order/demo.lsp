(let* ((x (list 1 2 3)) (tail (cdr (cdr x))))
  (setf (third x) 'new)
  (format t "~s ~s~%" x tail))
