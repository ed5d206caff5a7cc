// C24: number of workers
contract cmd.getWorkerCount(threadCount, numCpus) (r)
  props C24
  ensures configured: threadCount >= 1 ==> r == threadCount
  ensures capped: threadCount < 1 ==> r == (numCpus < 8 ? numCpus : 8)
  ensures positive: numCpus >= 1 ==> r >= 1
end
