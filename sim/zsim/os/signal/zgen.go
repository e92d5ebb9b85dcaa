package signal
