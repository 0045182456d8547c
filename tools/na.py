# Properties that cannot be decided by executing the code here: none.
