package balance

import (
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// D9: nobody reads the errors of the producer, so it stops accepting spans once
// some messages could not be delivered.
func TestDefect_ProducerErrors(t *testing.T) {
	broker := sarama.NewMockBroker(t, 1)
	defer broker.Close()
	broker.SetHandlerByMap(map[string]sarama.MockResponse{
		"MetadataRequest": sarama.NewMockMetadataResponse(t).
			SetBroker(broker.Addr(), broker.BrokerID()).
			SetLeader("topic", 0, broker.BrokerID()),
	})
	config := sarama.NewConfig()
	config.Version = sarama.V1_1_1_0
	config.ChannelBufferSize = 64
	config.Producer.MaxMessageBytes = 10 // everything is too large
	client, err := sarama.NewClient([]string{broker.Addr()}, config)
	if err != nil {
		t.Fatal(err)
	}
	sender, err := NewSender(client, "topic")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		for i := 0; i < 1000; i++ {
			sender.sendSpan(proxy.Span{Id: 1, Trace: 1})
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("sender is blocked")
	}
}
