/* stands for the Arm header of this name; LESS uses nothing of it */
