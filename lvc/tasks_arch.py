from task import *
